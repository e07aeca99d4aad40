// vfe: a bounded symbolic executor for LLVM-18 bitcode, deciding with Z3.
//
// Memory is byte-addressed with concrete object addresses; values, contents, offsets, I/O results and
// scheduling decisions may be symbolic.  See /verif/DESIGN.md ("Engine").
#include "expr.hpp"
#include "solver.hpp"

#include <llvm/ADT/SmallVector.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cmath>
#include <deque>
#include <fstream>
#include <list>
#include <memory>
#include <random>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
namespace {

// ---------------------------------------------------------------- fp helpers
} // namespace
double fp_to_double(u128 v, unsigned w)
{
    if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
    if (w == 64) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
    return (double)fp_to_ld(v, w);
}
long double fp_to_ld(u128 v, unsigned w)
{
    if (w != 80) return fp_to_double(v, w);
    long double d = 0; memcpy(&d, &v, 10); return d;
}
u128 double_to_fp(long double d, unsigned w)
{
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    if (w == 64) { double f = (double)d; u64 x; memcpy(&x, &f, 8); return x; }
    return ld_to_fp(d, w);
}
u128 ld_to_fp(long double d, unsigned w)
{
    if (w != 80) return double_to_fp(d, w);
    u128 v = 0; memcpy(&v, &d, 10); return v;
}
namespace {

static ExprCtx  X;
static Solver*  S;
static LLVMContext Ctx;
static Module*  M;
static const DataLayout* DL;

// ---------------------------------------------------------------- values
struct Val {
    Expr* e; // null: concrete in c
    u64   c;
    Val() : e(nullptr), c(0) {}
    explicit Val(u64 v) : e(nullptr), c(v) {}
    explicit Val(Expr* x) : e(x), c(0)
    {
        if (x->op == CONST && x->w <= 64) { e = nullptr; c = (u64)x->val; }
    }
    bool conc() const { return !e; }
};
static inline Expr* E(const Val& v, unsigned w)
{
    if (v.e) return v.e;
    return X.c(v.c, w);
}

// ---------------------------------------------------------------- memory
enum Kind : uint8_t { KGlobal, KHeap, KStack, KFunc, KTls };
enum : uint8_t { BC = 0, BS = 1, BU = 2 }; // byte state: concrete, symbolic, uninitialised

// last write, and the reads that are not ordered before a later read (at most 8 are remembered)
struct Shadow { uint32_t wclk = 0; uint8_t wt = 255, nr = 0, rt[8]; uint32_t rclk[8]; };

struct Obj {
    u64  addr = 0, size = 0;
    Kind kind = KGlobal;
    bool freed = false, ro = false;
    uint8_t alloc_kind = 0; // 0 other 1 malloc 2 new 3 new[]
    int  rc = 0;
    u64  serial = 0;
    const Instruction* site = nullptr;
    std::vector<uint8_t> b;
    std::vector<uint8_t> st;      // empty: all concrete
    std::vector<Expr*>   sym;     // valid where st==BS
    std::vector<Shadow>  shadow;  // empty: untouched
    std::string name;
    void needst() { if (st.empty()) st.assign(size, BC); }
};
struct OP { // intrusive pointer
    Obj* p = nullptr;
    OP() {}
    explicit OP(Obj* o) : p(o) { if (p) p->rc++; }
    OP(const OP& o) : p(o.p) { if (p) p->rc++; }
    OP(OP&& o) noexcept : p(o.p) { o.p = nullptr; }
    OP& operator=(OP o) { std::swap(p, o.p); return *this; }
    ~OP() { if (p && --p->rc == 0) delete p; }
};
static const size_t CH = 32;
struct Chunk { std::vector<OP> v; };
struct Region {
    std::vector<std::shared_ptr<Chunk>> ch;
    size_t n = 0;
    u64    next = 0;
    const OP& at(size_t i) const { return ch[i / CH]->v[i % CH]; }
    OP& atw(size_t i)
    {
        auto& c = ch[i / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        return c->v[i % CH];
    }
    void push(Obj* o)
    {
        if (n % CH == 0) { ch.push_back(std::make_shared<Chunk>()); ch.back()->v.reserve(CH); }
        auto& c = ch.back();
        if (c.use_count() > 1) { c = std::make_shared<Chunk>(*c); }
        c->v.emplace_back(o);
        n++;
    }
    void pop()
    {
        n--;
        auto& c = ch.back();
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->v.pop_back();
        if (c->v.empty()) ch.pop_back();
    }
    // index of the object with the greatest addr <= a, or -1
    long find(u64 a) const
    {
        size_t lo = 0, hi = n;
        while (lo < hi) { size_t m = (lo + hi) / 2; if (at(m).p->addr <= a) lo = m + 1; else hi = m; }
        return (long)lo - 1;
    }
};
static const u64 GLOBAL_BASE = 0x100000, HEAP_BASE = 0x100000000ull, STACK_BASE = 0x7000000000ull, STACK_SPAN = 0x100000000ull;
static const int MAXTH = 40;

// ---------------------------------------------------------------- compiled functions
struct KI {
    const Instruction* I = nullptr;
    unsigned opc = 0;
    int dest = -1;
    unsigned w = 0;   // result scalar width
    unsigned nleaf = 0;
    std::vector<int> ops;
    std::vector<unsigned> opw;
    std::vector<u64> x; // extra data
    int intr = 0;
};
struct KF {
    Function* F = nullptr;
    std::string name;
    int nregs = 0;
    std::vector<std::vector<KI>> bbs;
    std::vector<int> argslot;
    bool compiled = false;
    bool used = false;
    std::vector<std::pair<int,int>> argleaf;
};
static std::vector<Val> consts;
static std::unordered_map<const Function*, KF*> kfs;
static std::unordered_map<const Value*, u64> gaddr;
static std::unordered_map<u64, Function*> faddr;
static std::map<std::string, u64> params;

struct Frame {
    KF* f = nullptr;
    std::vector<Val> regs;
    int bb = 0, pc = 0, prev = -1;
    size_t stack_mark = 0;
    const KI* call = nullptr; // call instruction in the caller
    std::vector<Val> varargs;
    bool is_ctor_root = false;
};
typedef std::vector<uint32_t> VC;
enum TSt : uint8_t { TRun, TMutex, TCond, TCondTimed, TJoin, TDone, TWaitVal };
struct Thread {
    std::vector<Frame> fr;
    TSt  st = TRun;
    u64  wait = 0, wait2 = 0, deadline = 0;
    bool timed_out = false, sched_done = false, spurious_used = false;
    int  retphase = 0;
    VC   vc;
    std::map<const GlobalVariable*, u64> tls;
    u64  pth = 0;
    Val  retval;
    bool joined = false, detached = false;
};
struct Mutex { int owner = -1; int count = 0; VC vc; };
struct Input { std::string name; uint32_t var; unsigned w; };
struct State {
    std::vector<Thread> th;
    int cur = 0;
    Region reg[2 + MAXTH];
    std::vector<Expr*> pc;
    std::vector<u64> model;
    std::vector<Input> inputs;
    std::unordered_map<Expr*, u64> known;
    std::map<u64, Mutex> mtx;
    std::map<u64, int> condwaiters;
    std::map<u64, VC> atomvc;
    std::vector<Expr*> observed;
    int preempt = 0;
    u64 steps = 0;
    u64 nheap_live = 0, serial = 0;
    u64 depth = 0;
    bool mt = false, norace = false;
    u64 clock = 1000000000ull;
    int spurious = 0;
    bool keep_sched = false, pinned = false, forced = false; // pinned: continues with the inputs of its model only (the run is then incomplete)
    double zt = 0;
    std::vector<int> sched;
    std::vector<std::string> path_note;
    u64 id = 0;
};

// ---------------------------------------------------------------- options / stats
static int    opt_preempt = 2, opt_spurious = 0;
static bool   opt_race = true;
static double opt_patience = 40;
static u64    n_pinned = 0;
static u64    opt_maxsteps = 30000000, opt_maxpaths = 100000000;
static double opt_time = 600;
static size_t opt_mem = 3500;
static unsigned opt_ite_limit = 64;
static int    opt_split_k = 0, opt_split_n = 1;
static int    opt_samples = 3;
static bool   opt_trace = false, opt_forksel = false;
static std::string opt_instrument, opt_src = "/repo/";
static std::string opt_out, opt_entry = "vf_entry";
static std::string opt_reach_only;

static u64 st_paths = 0, st_forks = 0, st_instr = 0, st_states = 0, st_assume_killed = 0, st_checks = 0, st_schedpts = 0;
static std::set<std::string> reached, reach_labels;
static std::mt19937_64 rng(1);

struct Violation { std::string kind, msg, where; State* s; std::vector<u64> model; };
static std::vector<std::string> bt(State& s);

struct Abort { std::string what; };      // engine cannot continue: inconclusive
struct PathEnd {};                         // path finished or killed
struct Retry {};                           // state changed, re-execute

static std::vector<State*> work;
static State* cur;
static std::vector<std::string> sample_json;
static u64 next_state_id = 1;

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static std::string loc(const Instruction* I)
{
    if (!I) return "?";
    std::string r;
    if (const DebugLoc& d = I->getDebugLoc()) {
        DILocation* L = d.get();
        r = L->getFilename().str() + ":" + std::to_string(L->getLine());
        while ((L = L->getInlinedAt())) { r += " <- " + L->getFilename().str() + ":" + std::to_string(L->getLine()); }
    }
    return r;
}
static std::string fname(const Function* F) { return llvm::demangle(F->getName().str()); }
static std::vector<std::string> bt(State& s)
{
    std::vector<std::string> r;
    if (s.th.empty()) return r;
    Thread& t = s.th[s.cur];
    for (int i = (int)t.fr.size() - 1; i >= 0; i--) {
        Frame& f = t.fr[i];
        std::string l;
        if (f.pc < (int)f.f->bbs[f.bb].size()) l = loc(f.f->bbs[f.bb][f.pc].I);
        std::string n = fname(f.f->F);
        if (n.size() > 160) n = n.substr(0, 160) + "...";
        r.push_back(n + " @ " + l);
    }
    return r;
}
static std::string inputs_json(State& s, const std::vector<u64>& m)
{
    std::string o = "[";
    bool first = true;
    for (auto& i : s.inputs) {
        u64 v = i.var < m.size() ? m[i.var] : 0;
        v &= (u64)mask(i.w);
        if (!first) o += ",";
        first = false;
        o += "{\"n\":\"" + jesc(i.name) + "\",\"w\":" + std::to_string(i.w) + ",\"v\":" + std::to_string(v) + "}";
    }
    return o + "]";
}
static std::string observed_json(State& s, const std::vector<u64>& m)
{
    std::string o = "[";
    for (size_t i = 0; i < s.observed.size(); i++) {
        if (i) o += ",";
        o += std::to_string((u64)X.eval(s.observed[i], m));
    }
    return o + "]";
}
static std::string sched_json(State& s)
{
    std::string o = "[";
    for (size_t i = 0; i < s.sched.size(); i++) { if (i) o += ","; o += std::to_string(s.sched[i]); }
    return o + "]";
}

static std::string violation_json;
struct Found {};
[[noreturn]] static void violate(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>* model = nullptr)
{
    const std::vector<u64>& m = model ? *model : s.model;
    std::string o = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"inputs\":" + inputs_json(s, m)
        + ",\"sched\":" + sched_json(s) + ",\"preemptions\":" + std::to_string(s.preempt) + ",\"thread\":" + std::to_string(s.cur) + ",\"stack\":[";
    auto b = bt(s);
    for (size_t i = 0; i < b.size(); i++) { if (i) o += ","; o += "\"" + jesc(b[i]) + "\""; }
    o += "],\"notes\":[";
    for (size_t i = 0; i < s.path_note.size(); i++) { if (i) o += ","; o += "\"" + jesc(s.path_note[i]) + "\""; }
    o += "]}";
    violation_json = o;
    throw Found();
}

// ---------------------------------------------------------------- state helpers
static State* clone(State& s)
{
    State* n = new State(s);
    n->id = next_state_id++;
    st_forks++;
    return n;
}
static void add_known(State& s, Expr* c)
{
    // c holds on this path
    if (c->op == EQ && c->k[1]->op == CONST && c->k[1]->w <= 64) s.known[c->k[0]] = (u64)c->k[1]->val;
    else if (c->op == AND && c->w == 1) { add_known(s, c->k[0]); add_known(s, c->k[1]); return; }
    else if (c->op == NOT) s.known[c->k[0]] = 0;
    if (c->w == 1 && c->op != CONST) s.known[c] = 1;
}
// adds a constraint known to be satisfiable with the current model already updated
static void add_pc(State& s, Expr* c)
{
    if (c->op == CONST) return;
    if (c->op == AND && c->w == 1) { add_pc(s, c->k[0]); add_pc(s, c->k[1]); s.known[c] = 1; return; }
    s.pc.push_back(c);
    add_known(s, c);
}
static int feasible(State& s, Expr* c, std::vector<u64>* nm)
{
    // a path on which the solver gives up (typically a loop that does not end, on ever larger terms) goes on with
    // the inputs of its current model: that can still find a violation; if none is found, the run ends as incomplete
    if (s.pinned && !s.forced) return nm && X.eval(c, s.model) ? (*nm = s.model, 1) : 0;
    double z0 = S->z3_time;
    int r = S->check(s.pc, c, s.model, nm);
    s.zt += S->z3_time - z0;
    if (r < 0 || s.zt > opt_patience) {
        if (!s.pinned) { s.pinned = true; n_pinned++; if (n_pinned > 20) throw Abort{"the solver gives up on too many paths"}; }
        if (r < 0) r = 0;
    }
    return r;
}
// substitute values fixed on this path (shallow, cheap)
static Expr* subst(State& s, Expr* e)
{
    if (e->op == CONST || s.known.empty()) return e;
    auto it = s.known.find(e);
    if (it != s.known.end()) return X.c(it->second, e->w);
    if (e->op == VAR) return e;
    std::unordered_map<Expr*, Expr*> memo;
    std::function<Expr*(Expr*, int)> f = [&](Expr* x, int d) -> Expr* {
        if (x->op == CONST) return x;
        auto k = s.known.find(x);
        if (k != s.known.end()) return X.c(k->second, x->w);
        if (x->op == VAR || d > 200) return x;
        auto m = memo.find(x);
        if (m != memo.end()) return m->second;
        Expr* a[3] = {nullptr, nullptr, nullptr};
        bool ch = false;
        for (int i = 0; i < x->nk; i++) { a[i] = f(x->k[i], d + 1); ch |= a[i] != x->k[i]; }
        Expr* r = x;
        if (ch) switch (x->op) {
            case NOT: r = X.notE(a[0]); break;
            case ZEXT: r = X.zext(a[0], x->w); break;
            case SEXT: r = X.sext(a[0], x->w); break;
            case EXTRACT: r = X.extract(a[0], (unsigned)x->val, x->w); break;
            case CONCAT: r = X.concat(a[0], a[1]); break;
            case ITE: r = X.ite(a[0], a[1], a[2]); break;
            default:
                if (x->op >= FLT) r = X.fp(x->op, x->w, a[0], a[1]);
                else r = X.bin(x->op, a[0], a[1]);
            }
        memo[x] = r;
        return r;
    };
    return f(e, 0);
}
// decide a 1-bit condition; forks when both outcomes are feasible. Returns the outcome in the current state.
// The sibling state is pushed with the opposite constraint and will re-execute the current instruction.
static bool decide(State& s, Expr* c)
{
    c = subst(s, c);
    if (c->op == CONST) return c->val != 0;
    bool mv = X.eval(c, s.model) != 0;
    Expr* other = mv ? X.notE(c) : c;
    Expr* same = mv ? c : X.notE(c);
    std::vector<u64> nm;
    if (feasible(s, other, &nm)) {
        State* n = clone(s);
        n->model = nm;
        add_pc(*n, other);
        n->depth++;
        work.push_back(n);
        add_pc(s, same);
        s.depth++;
    } else {
        s.known[c] = mv;
    }
    return mv;
}
static u64 concretize(State& s, const Val& v)
{
    if (v.conc()) return v.c;
    Expr* e = subst(s, v.e);
    if (e->op == CONST) return (u64)e->val;
    u64 val = (u64)X.eval(e, s.model);
    Expr* eq = X.bin(EQ, e, X.c(val, e->w));
    std::vector<u64> nm;
    if (feasible(s, X.notE(eq), &nm)) {
        State* n = clone(s);
        n->model = nm;
        add_pc(*n, X.notE(eq));
        work.push_back(n);
        add_pc(s, eq);
    }
    s.known[e] = val;
    if (v.e != e) s.known[v.e] = val;
    return val;
}
static Expr* new_input(State& s, const std::string& name, unsigned w, bool record = true)
{
    uint32_t idx = (uint32_t)s.model.size();
    s.model.push_back(0);
    if (record) s.inputs.push_back({name, idx, w});
    return X.var(idx, w);
}

// ---------------------------------------------------------------- memory ops
static int region_of(u64 a)
{
    if (a >= STACK_BASE) { u64 i = (a - STACK_BASE) / STACK_SPAN; return i < MAXTH ? (int)(2 + i) : -1; }
    if (a >= HEAP_BASE) return 1;
    if (a >= GLOBAL_BASE) return 0;
    return -1;
}
static Obj* lookup(State& s, u64 a, int& r, long& idx)
{
    r = region_of(a);
    if (r < 0) return nullptr;
    idx = s.reg[r].find(a);
    if (idx < 0) return nullptr;
    return s.reg[r].at((size_t)idx).p;
}
static Obj* writable(State& s, int r, long idx)
{
    OP& p = s.reg[r].atw((size_t)idx);
    if (p.p->rc > 1) p = OP(new Obj(*p.p)), p.p->rc = 1;
    return p.p;
}
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

static Obj* alloc(State& s, int r, u64 size, Kind k, u64 align, const Instruction* site)
{
    Region& R = s.reg[r];
    if (align < 16) align = 16;
    u64 a = (R.next + align - 1) / align * align;
    Obj* o = new Obj();
    o->addr = a; o->size = size; o->kind = k; o->site = site;
    o->b.assign(size, 0);
    R.next = a + size + 32; // red zone
    R.push(o);
    return o;
}
static void make_uninit(Obj* o) { o->st.assign(o->size, BU); }

static void check_access(State& s, Obj* o, u64 a, u64 n, bool wr)
{
    if (!o || a < o->addr || a + n > o->addr + o->size || a + n < a) {
        std::string m = std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + hex(a);
        if (a < 4096) violate(s, "null-deref", m);
        if (o && o->freed) violate(s, "use-after-free", m);
        if (o) m += " near object " + hex(o->addr) + " size " + std::to_string(o->size) + " " + o->name + (o->site ? " allocated at " + loc(o->site) : "");
        violate(s, "out-of-bounds", m);
    }
    if (o->freed) violate(s, "use-after-free", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + hex(a) + (o->site ? " allocated at " + loc(o->site) : ""));
    if (wr && o->ro) violate(s, "write-to-constant", o->name);
}
static const Instruction* cur_inst(State& s)
{
    Frame& f = s.th[s.cur].fr.back();
    return f.pc < (int)f.f->bbs[f.bb].size() ? f.f->bbs[f.bb][f.pc].I : nullptr;
}
static void race_check(State& s, int r, long idx, u64 off, u64 n, bool wr)
{
    if (!opt_race || !s.mt || s.norace) return;
    Obj* o = s.reg[r].at((size_t)idx).p;
    if (o->ro) return;
    o = writable(s, r, idx);
    if (o->shadow.empty()) o->shadow.resize(o->size);
    Thread& t = s.th[s.cur];
    for (u64 i = off; i < off + n && i < o->size; i++) {
        Shadow& sh = o->shadow[i];
        if (sh.wt != 255 && sh.wt != s.cur && sh.wclk > t.vc[sh.wt])
            violate(s, "data-race", std::string(wr ? "write" : "read") + " by thread " + std::to_string(s.cur) + " races with a write by thread " + std::to_string(sh.wt)
                    + " on object of size " + std::to_string(o->size) + " offset " + std::to_string(i) + " " + o->name + (o->site ? " allocated at " + loc(o->site) : ""));
        if (wr) {
            for (int k = 0; k < sh.nr; k++)
                if (sh.rt[k] != s.cur && sh.rclk[k] > t.vc[sh.rt[k]])
                    violate(s, "data-race", "write by thread " + std::to_string(s.cur) + " races with a read by thread " + std::to_string(sh.rt[k])
                            + " on object of size " + std::to_string(o->size) + " offset " + std::to_string(i) + " " + o->name + (o->site ? " allocated at " + loc(o->site) : ""));
            sh.wt = (uint8_t)s.cur;
            sh.wclk = t.vc[s.cur];
            sh.nr = 0;
        } else {
            uint8_t n = 0;
            for (uint8_t k = 0; k < sh.nr; k++)
                if (sh.rclk[k] > t.vc[sh.rt[k]] && sh.rt[k] != s.cur) { sh.rt[n] = sh.rt[k]; sh.rclk[n] = sh.rclk[k]; n++; }
            if (n == 8) n = 7;
            sh.rt[n] = (uint8_t)s.cur;
            sh.rclk[n] = t.vc[s.cur];
            sh.nr = (uint8_t)(n + 1);
        }
    }
}
static void reset_shadow(State& s, int r, long idx)
{
    Obj* o = s.reg[r].at((size_t)idx).p;
    if (!o->shadow.empty()) writable(s, r, idx)->shadow.clear();
}
static Expr* byte_at(State& s, int r, long idx, u64 off)
{
    Obj* o = s.reg[r].at((size_t)idx).p;
    if (o->st.empty() || o->st[off] == BC) return X.bytes[o->b[off]];
    if (o->st[off] == BS) return o->sym[off];
    o = writable(s, r, idx);
    Expr* v = new_input(s, "uninit", 8, false);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    o->st[off] = BS;
    o->sym[off] = v;
    return v;
}
static void set_byte(Obj* o, u64 off, Expr* e)
{
    if (e->op == CONST) {
        o->b[off] = (uint8_t)e->val;
        if (!o->st.empty()) o->st[off] = BC;
        return;
    }
    o->needst();
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    o->st[off] = BS;
    o->sym[off] = e;
}
static Val load_at(State& s, int r, long idx, u64 off, unsigned nb, unsigned w)
{
    Obj* o = s.reg[r].at((size_t)idx).p;
    bool conc = true;
    if (!o->st.empty())
        for (unsigned i = 0; i < nb; i++) if (o->st[off + i] != BC) { conc = false; break; }
    if (conc && nb <= 8) {
        u64 v = 0;
        memcpy(&v, &o->b[off], nb);
        if (w < 64) v &= ((u64)1 << w) - 1;
        return Val(v);
    }
    Expr* e = byte_at(s, r, idx, off);
    for (unsigned i = 1; i < nb; i++) e = X.concat(byte_at(s, r, idx, off + i), e);
    if (e->w > w) e = X.extract(e, 0, w);
    return Val(e);
}
static void store_at(State& s, int r, long idx, u64 off, const Val& v, unsigned nb, unsigned w)
{
    Obj* o = writable(s, r, idx);
    if (v.conc() && nb <= 8) {
        memcpy(&o->b[off], &v.c, nb);
        if (!o->st.empty()) memset(&o->st[off], BC, nb);
        return;
    }
    Expr* e = E(v, w);
    if (e->w < nb * 8) e = X.zext(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) set_byte(o, off + i, X.extract(e, i * 8, 8));
}
// resolve a (possibly symbolic) address to one object; forks over objects. Afterwards the access is in bounds.
static Obj* resolve(State& s, const Val& a, u64 n, bool wr, int& r, long& idx, Val& off)
{
    if (a.conc()) {
        Obj* o = lookup(s, a.c, r, idx);
        check_access(s, o, a.c, n, wr);
        off = Val(a.c - o->addr);
        return o;
    }
    Expr* e = subst(s, a.e);
    if (e->op == CONST) return resolve(s, Val(e), n, wr, r, idx, off);
    u64 av = (u64)X.eval(e, s.model);
    Obj* o = lookup(s, av, r, idx);
    check_access(s, o, av, n, wr);
    if (o->size < n) violate(s, "out-of-bounds", "symbolic access");
    Expr* o_ = X.bin(SUB, e, X.c(o->addr, 64));
    Expr* inb = X.bin(ULE, o_, X.c(o->size - n, 64));
    std::vector<u64> nm;
    if (feasible(s, X.notE(inb), &nm)) {
        State* ns = clone(s);
        ns->model = nm;
        add_pc(*ns, X.notE(inb));
        work.push_back(ns);
        add_pc(s, inb);
    }
    off = Val(o_);
    return o;
}
static Val load(State& s, const Val& a, unsigned nb, unsigned w, bool atomic = false)
{
    int r; long idx; Val off;
    Obj* o = resolve(s, a, nb, false, r, idx, off);
    if (off.conc()) {
        if (!atomic && s.mt) race_check(s, r, idx, off.c, nb, false);
        return load_at(s, r, idx, off.c, nb, w);
    }
    unsigned tz = X.tz(off.e);
    u64 step = tz >= 32 ? o->size : ((u64)1 << tz);
    u64 ncand = (o->size - nb) / step + 1;
    if (ncand > opt_ite_limit) {
        u64 c = concretize(s, off);
        if (!atomic && s.mt) race_check(s, r, idx, c, nb, false);
        return load_at(s, r, idx, c, nb, w);
    }
    if (!atomic && s.mt) race_check(s, r, idx, 0, o->size, false);
    Expr* res = nullptr;
    u128 bound = X.ub(off.e);
    for (u64 k = 0; k + nb <= o->size; k += step) {
        if (k > bound) break;
        Expr* v = E(load_at(s, r, idx, k, nb, w), w);
        res = res ? X.ite(X.bin(EQ, off.e, X.c(k, 64)), v, res) : v;
    }
    return Val(res);
}
static void store(State& s, const Val& a, const Val& v, unsigned nb, unsigned w, bool atomic = false)
{
    int r; long idx; Val off;
    Obj* o = resolve(s, a, nb, true, r, idx, off);
    if (!off.conc()) {
        unsigned tz = X.tz(off.e);
        u64 step = tz >= 32 ? o->size : ((u64)1 << tz);
        u64 ncand = (o->size - nb) / step + 1;
        if (ncand <= opt_ite_limit) {
            if (!atomic && s.mt) race_check(s, r, idx, 0, o->size, true);
            Expr* val = E(v, w);
            if (val->w < nb * 8) val = X.zext(val, nb * 8);
            Obj* q = writable(s, r, idx);
            for (u64 k = 0; k + nb <= q->size; k += step) {
                Expr* cnd = X.bin(EQ, off.e, X.c(k, 64));
                if (cnd == X.f) continue;
                for (unsigned i = 0; i < nb; i++) {
                    Expr* old = byte_at(s, r, idx, k + i);
                    set_byte(q, k + i, X.ite(cnd, X.extract(val, i * 8, 8), old));
                }
            }
            return;
        }
        off = Val(concretize(s, off));
    }
    if (!atomic && s.mt) race_check(s, r, idx, off.c, nb, true);
    store_at(s, r, idx, off.c, v, nb, w);
}
static void copy_mem(State& s, u64 d, u64 src, u64 n)
{
    if (!n) return;
    int r1, r2; long i1, i2;
    Obj* so = lookup(s, src, r2, i2);
    check_access(s, so, src, n, false);
    Obj* dob = lookup(s, d, r1, i1);
    check_access(s, dob, d, n, true);
    if (s.mt) { race_check(s, r2, i2, src - so->addr, n, false); race_check(s, r1, i1, d - dob->addr, n, true); }
    so = s.reg[r2].at((size_t)i2).p;
    OP keep(so);
    Obj* w = writable(s, r1, i1);
    u64 so_off = src - so->addr, do_off = d - w->addr;
    std::vector<uint8_t> tb(so->b.begin() + so_off, so->b.begin() + so_off + n);
    if (so->st.empty()) {
        memcpy(&w->b[do_off], tb.data(), n);
        if (!w->st.empty()) memset(&w->st[do_off], BC, n);
    } else {
        std::vector<uint8_t> ts(so->st.begin() + so_off, so->st.begin() + so_off + n);
        std::vector<Expr*> te(n, nullptr);
        if (!so->sym.empty()) for (u64 i = 0; i < n; i++) te[i] = so->sym[so_off + i];
        w->needst();
        bool any = false;
        for (u64 i = 0; i < n; i++) any |= ts[i] == BS;
        if (any && w->sym.empty()) w->sym.assign(w->size, nullptr);
        for (u64 i = 0; i < n; i++) {
            w->b[do_off + i] = tb[i];
            w->st[do_off + i] = ts[i];
            if (ts[i] == BS) w->sym[do_off + i] = te[i];
        }
    }
}
static void set_mem(State& s, u64 d, const Val& v, u64 n)
{
    if (!n) return;
    int r; long idx;
    Obj* o = lookup(s, d, r, idx);
    check_access(s, o, d, n, true);
    if (s.mt) race_check(s, r, idx, d - o->addr, n, true);
    o = writable(s, r, idx);
    Expr* b = v.conc() ? X.bytes[v.c & 255] : (v.e->w == 8 ? v.e : X.extract(v.e, 0, 8));
    for (u64 i = 0; i < n; i++) set_byte(o, d - o->addr + i, b);
}
static std::string cstr(State& s, u64 a)
{
    std::string r;
    for (int k = 0; k < 100000; k++) {
        int rr; long idx;
        Obj* o = lookup(s, a, rr, idx);
        check_access(s, o, a, 1, false);
        u64 c = concretize(s, Val(byte_at(s, rr, idx, a - o->addr)));
        if (!c) break;
        r += (char)c;
        a++;
    }
    return r;
}

// ---------------------------------------------------------------- type flattening
static unsigned scalar_width(Type* T)
{
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    if (T->isX86_FP80Ty()) return 80;
    std::string str;
    raw_string_ostream os(str);
    T->print(os);
    throw Abort{"unsupported type " + os.str()};
}
struct Leaf { unsigned w; u64 off; unsigned nb; };
static void leaves(Type* T, u64 off, std::vector<Leaf>& out)
{
    if (auto* ST = dyn_cast<StructType>(T)) {
        const StructLayout* SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + SL->getElementOffset(i), out);
    } else if (auto* AT = dyn_cast<ArrayType>(T)) {
        u64 sz = DL->getTypeAllocSize(AT->getElementType());
        for (unsigned i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * sz, out);
    } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        u64 sz = DL->getTypeStoreSize(VT->getElementType());
        for (unsigned i = 0; i < VT->getNumElements(); i++) leaves(VT->getElementType(), off + i * sz, out);
    } else {
        unsigned w = scalar_width(T);
        out.push_back({w, off, (w + 7) / 8});
    }
}
static unsigned nleaves(Type* T)
{
    if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return 0;
    std::vector<Leaf> l;
    leaves(T, 0, l);
    return (unsigned)l.size();
}
static unsigned leaf_index(Type* T, ArrayRef<unsigned> idx)
{
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto* ST = dyn_cast<StructType>(T)) {
            for (unsigned k = 0; k < i; k++) r += nleaves(ST->getElementType(k));
            T = ST->getElementType(i);
        } else {
            auto* AT = cast<ArrayType>(T);
            r += i * nleaves(AT->getElementType());
            T = AT->getElementType();
        }
    }
    return r;
}

// ---------------------------------------------------------------- constants
static void const_leaves(const Constant* C, std::vector<Val>& out);
static u64 const_addr(const Constant* C)
{
    std::vector<Val> v;
    const_leaves(C, v);
    if (!v[0].conc()) throw Abort{"non-concrete constant address"};
    return v[0].c;
}
static std::unordered_map<const GlobalVariable*, int> tls_globals;
static void const_leaves(const Constant* C, std::vector<Val>& out)
{
    Type* T = C->getType();
    if (auto* CI = dyn_cast<ConstantInt>(C)) {
        unsigned w = CI->getBitWidth();
        if (w <= 64) out.push_back(Val(CI->getZExtValue()));
        else {
            APInt a = CI->getValue();
            u128 v = a.getLoBits(64).getLimitedValue();
            v |= (u128)a.lshr(64).getLoBits(64).getLimitedValue() << 64;
            if (w > 128) throw Abort{"wide int constant"};
            Val x; x.e = X.c(v, w);
            out.push_back(x);
        }
        return;
    }
    if (auto* CF = dyn_cast<ConstantFP>(C)) {
        APInt a = CF->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() <= 64) out.push_back(Val(a.getZExtValue()));
        else {
            u128 v = a.getLoBits(64).getLimitedValue();
            v |= (u128)a.lshr(64).getLimitedValue() << 64;
            Val x; x.e = X.c(v, a.getBitWidth());
            out.push_back(x);
        }
        return;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(Val((u64)0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        std::vector<Leaf> l;
        leaves(T, 0, l);
        for (auto& x : l) { Val v; if (x.w > 64) v.e = X.c(0, x.w); out.push_back(v); }
        return;
    }
    if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < CA->getNumOperands(); i++) const_leaves(CA->getOperand(i), out);
        return;
    }
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); i++) const_leaves(CD->getElementAsConstant(i), out);
        return;
    }
    if (auto* GA = dyn_cast<GlobalAlias>(C)) { const_leaves(GA->getAliasee(), out); return; }
    if (isa<GlobalValue>(C)) {
        auto it = gaddr.find(C);
        if (it == gaddr.end()) throw Abort{"unknown global " + C->getName().str()};
        out.push_back(Val(it->second));
        return;
    }
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) throw Abort{"gep constexpr"};
            out.push_back(Val(const_addr(cast<Constant>(G->getPointerOperand())) + (u64)off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            u64 a = const_addr(CE->getOperand(0));
            unsigned w = scalar_width(T);
            if (w < 64) a &= ((u64)1 << w) - 1;
            out.push_back(Val(a));
            return;
        }
        case Instruction::Trunc: { u64 a = const_addr(CE->getOperand(0)); out.push_back(Val(a & (u64)mask(scalar_width(T)))); return; }
        case Instruction::Add: out.push_back(Val(const_addr(CE->getOperand(0)) + const_addr(CE->getOperand(1)))); return;
        case Instruction::Sub: out.push_back(Val((const_addr(CE->getOperand(0)) - const_addr(CE->getOperand(1))) & (u64)mask(scalar_width(T)))); return;
        case Instruction::ICmp: {
            u64 a = const_addr(CE->getOperand(0)), b = const_addr(CE->getOperand(1));
            bool r = false;
            switch (CE->getPredicate()) {
            case CmpInst::ICMP_EQ: r = a == b; break;
            case CmpInst::ICMP_NE: r = a != b; break;
            case CmpInst::ICMP_ULT: r = a < b; break;
            case CmpInst::ICMP_UGT: r = a > b; break;
            default: throw Abort{"icmp constexpr"};
            }
            out.push_back(Val((u64)r));
            return;
        }
        default: break;
        }
    }
    std::string str;
    raw_string_ostream os(str);
    C->print(os);
    throw Abort{"unsupported constant " + os.str().substr(0, 200)};
}
static void write_const(Obj* o, u64 off, const Constant* C)
{
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    std::vector<Val> v;
    std::vector<Leaf> l;
    const_leaves(C, v);
    leaves(C->getType(), off, l);
    for (size_t i = 0; i < l.size(); i++) {
        u128 x = v[i].conc() ? (u128)v[i].c : v[i].e->val;
        memcpy(&o->b[l[i].off], &x, l[i].nb);
    }
}

// ---------------------------------------------------------------- compile
enum { INTR_NONE = 0, INTR_EXT = 1 };
static KF* kf(Function* F);
static std::unordered_map<std::string, int> extid;
static int ext_lookup(const std::string& n);

static void compile(KF* k)
{
    k->compiled = true;
    Function* F = k->F;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const BasicBlock*, int> bbi;
    int n = 0;
    for (auto& A : F->args()) { slot[&A] = n; k->argleaf.push_back({n, (int)nleaves(A.getType())}); n += (int)nleaves(A.getType()); }
    int b = 0;
    for (auto& B : *F) {
        bbi[&B] = b++;
        for (auto& I : B) { unsigned c = nleaves(I.getType()); if (c) { slot[&I] = n; n += (int)c; } }
    }
    k->nregs = n;
    std::unordered_map<const Constant*, int> cslot;
    auto opnd = [&](const Value* V) -> int {
        auto it = slot.find(V);
        if (it != slot.end()) return it->second;
        if (auto* C = dyn_cast<Constant>(V)) {
            auto ci = cslot.find(C);
            if (ci != cslot.end()) return ci->second;
            int base = (int)consts.size();
            std::vector<Val> v;
            if (auto* G = dyn_cast<GlobalVariable>(C); G && G->isThreadLocal()) v.push_back(Val((u64)0));
            else const_leaves(C, v);
            for (auto& x : v) consts.push_back(x);
            return cslot[C] = -base - 1;
        }
        return 0;
    };
    for (auto& B : *F) {
        k->bbs.emplace_back();
        auto& out = k->bbs.back();
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            KI ki;
            ki.I = &I;
            ki.opc = I.getOpcode();
            ki.nleaf = nleaves(I.getType());
            if (ki.nleaf) ki.dest = slot[&I];
            if (ki.nleaf == 1) { std::vector<Leaf> l; leaves(I.getType(), 0, l); ki.w = l[0].w; }
            auto addop = [&](const Value* V) {
                ki.ops.push_back(opnd(V));
                unsigned w = 0;
                if (!V->getType()->isVoidTy() && !V->getType()->isLabelTy() && !V->getType()->isMetadataTy() && !V->getType()->isTokenTy() && nleaves(V->getType()) >= 1) {
                    std::vector<Leaf> l; leaves(V->getType(), 0, l); w = l.empty() ? 0 : l[0].w;
                }
                ki.opw.push_back(w);
            };
            switch (I.getOpcode()) {
            case Instruction::PHI: {
                auto* P = cast<PHINode>(&I);
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { addop(P->getIncomingValue(i)); ki.x.push_back((u64)bbi[P->getIncomingBlock(i)]); }
                break;
            }
            case Instruction::Br: {
                auto* Br = cast<BranchInst>(&I);
                if (Br->isConditional()) addop(Br->getCondition());
                for (unsigned i = 0; i < Br->getNumSuccessors(); i++) ki.x.push_back((u64)bbi[Br->getSuccessor(i)]);
                break;
            }
            case Instruction::Switch: {
                auto* Sw = cast<SwitchInst>(&I);
                addop(Sw->getCondition());
                ki.x.push_back((u64)bbi[Sw->getDefaultDest()]);
                for (auto& c : Sw->cases()) { ki.x.push_back(c.getCaseValue()->getZExtValue()); ki.x.push_back((u64)bbi[c.getCaseSuccessor()]); }
                break;
            }
            case Instruction::GetElementPtr: {
                auto* G = cast<GetElementPtrInst>(&I);
                if (G->getType()->isVectorTy()) throw Abort{"vector gep"};
                addop(G->getPointerOperand());
                u64 c = 0;
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    Value* iv = gi.getOperand();
                    if (StructType* ST = gi.getStructTypeOrNull()) {
                        c += DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(iv)->getZExtValue());
                    } else {
                        u64 sz = gi.getSequentialElementStride(*DL);
                        if (auto* CI = dyn_cast<ConstantInt>(iv)) c += (u64)CI->getSExtValue() * sz;
                        else { addop(iv); ki.x.push_back(sz); }
                    }
                }
                ki.x.push_back(c); // last
                break;
            }
            case Instruction::Alloca: {
                auto* A = cast<AllocaInst>(&I);
                addop(A->getArraySize());
                ki.x.push_back(DL->getTypeAllocSize(A->getAllocatedType()));
                ki.x.push_back(A->getAlign().value());
                break;
            }
            case Instruction::ExtractValue: {
                auto* EV = cast<ExtractValueInst>(&I);
                addop(EV->getAggregateOperand());
                ki.x.push_back(leaf_index(EV->getAggregateOperand()->getType(), EV->getIndices()));
                break;
            }
            case Instruction::InsertValue: {
                auto* IV = cast<InsertValueInst>(&I);
                addop(IV->getAggregateOperand());
                addop(IV->getInsertedValueOperand());
                ki.x.push_back(leaf_index(IV->getType(), IV->getIndices()));
                ki.x.push_back(nleaves(IV->getInsertedValueOperand()->getType()));
                break;
            }
            case Instruction::ShuffleVector: {
                auto* SV = cast<ShuffleVectorInst>(&I);
                addop(SV->getOperand(0));
                addop(SV->getOperand(1));
                ki.x.push_back(nleaves(SV->getOperand(0)->getType()));
                for (int m : SV->getShuffleMask()) ki.x.push_back((u64)(i64)m);
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto* CB = cast<CallBase>(&I);
                for (auto& a : CB->args()) { if (a->getType()->isMetadataTy()) { ki.ops.push_back(0); ki.opw.push_back(0); } else addop(a.get()); }
                if (!isa<InlineAsm>(CB->getCalledOperand())) addop(CB->getCalledOperand());
                if (auto* IV = dyn_cast<InvokeInst>(CB)) { ki.x.push_back((u64)bbi[IV->getNormalDest()]); ki.x.push_back((u64)bbi[IV->getUnwindDest()]); }
                break;
            }
            case Instruction::LandingPad: break;
            default:
                for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) addop(o.get());
            }
            out.push_back(std::move(ki));
        }
    }
}
static KF* kf(Function* F)
{
    auto it = kfs.find(F);
    if (it != kfs.end()) { if (!it->second->compiled) compile(it->second); return it->second; }
    KF* k = new KF();
    k->F = F;
    k->name = F->getName().str();
    kfs[F] = k;
    compile(k);
    return k;
}

// ---------------------------------------------------------------- execution
static inline Val& R(Frame& f, int op, int leaf = 0)
{
    if (op >= 0) return f.regs[(size_t)(op + leaf)];
    return consts[(size_t)(-op - 1 + leaf)];
}
static void push_frame(State& s, Thread& t, Function* F, const std::vector<Val>& args, const KI* call)
{
    KF* k = kf(F);
    k->used = true;
    if (t.fr.size() > 2000) violate(s, "stack-overflow", "call depth");
    t.fr.emplace_back();
    Frame& f = t.fr.back();
    f.f = k;
    f.regs.resize((size_t)k->nregs);
    size_t need = 0;
    for (auto& a : k->argleaf) need += (size_t)a.second;
    for (size_t i = 0; i < args.size() && i < need; i++) f.regs[i] = args[i];
    for (size_t i = need; i < args.size(); i++) f.varargs.push_back(args[i]);
    f.call = call;
    int r = 2 + (int)(&t - &s.th[0]);
    f.stack_mark = s.reg[r].n;
}
static void pop_frame(State& s, Thread& t)
{
    int r = 2 + (int)(&t - &s.th[0]);
    Region& Rg = s.reg[r];
    while (Rg.n > t.fr.back().stack_mark) {
        const Obj* o = Rg.at(Rg.n - 1).p;
        if (!s.atomvc.empty()) s.atomvc.erase(s.atomvc.lower_bound(o->addr), s.atomvc.lower_bound(o->addr + o->size));
        if (!s.mtx.empty()) s.mtx.erase(s.mtx.lower_bound(o->addr), s.mtx.lower_bound(o->addr + o->size));
        Rg.pop();
    }
    // reuse addresses: next = end of the last object
    if (Rg.n) { const Obj* o = Rg.at(Rg.n - 1).p; Rg.next = o->addr + o->size + 32; }
    else Rg.next = STACK_BASE + (u64)(r - 2) * STACK_SPAN;
    t.fr.pop_back();
}
static void goto_bb(State& s, Frame& f, int bb)
{
    (void)s;
    f.prev = f.bb;
    f.bb = bb;
    f.pc = 0;
    auto& ins = f.f->bbs[(size_t)bb];
    // phis in parallel
    size_t n = 0;
    static std::vector<std::pair<int, Val>> tmp;
    tmp.clear();
    while (n < ins.size() && ins[n].opc == Instruction::PHI) {
        const KI& k = ins[n];
        size_t i = 0;
        for (; i < k.x.size(); i++) if ((int)k.x[i] == f.prev) break;
        if (i == k.x.size()) throw Abort{"phi"};
        for (unsigned l = 0; l < k.nleaf; l++) tmp.push_back({k.dest + (int)l, R(f, k.ops[i], (int)l)});
        n++;
    }
    for (auto& p : tmp) f.regs[(size_t)p.first] = p.second;
    f.pc = (int)n;
}
static void thread_finish(State& s);
static void do_return(State& s, const std::vector<Val>& rv)
{
    Thread& t = s.th[s.cur];
    const KI* call = t.fr.back().call;
    pop_frame(s, t);
    if (t.fr.empty()) { t.retval = rv.empty() ? Val() : rv[0]; thread_finish(s); return; }
    Frame& f = t.fr.back();
    if (!call) throw Abort{"return without call"};
    if (call->dest >= 0) for (size_t i = 0; i < call->nleaf && i < rv.size(); i++) f.regs[(size_t)call->dest + i] = rv[i];
    if (call->opc == Instruction::Invoke) goto_bb(s, f, (int)call->x[0]);
    else f.pc++;
}
// finish an external call with a result
static void ext_ret(State& s, Frame& f, const KI& k, const Val& v)
{
    if (k.dest >= 0) f.regs[(size_t)k.dest] = v;
    if (k.opc == Instruction::Invoke) goto_bb(s, f, (int)k.x[0]);
    else f.pc++;
}
static void ext_ret2(State& s, Frame& f, const KI& k, const Val& a, const Val& b)
{
    f.regs[(size_t)k.dest] = a;
    f.regs[(size_t)k.dest + 1] = b;
    if (k.opc == Instruction::Invoke) goto_bb(s, f, (int)k.x[0]);
    else f.pc++;
}

// ---------------------------------------------------------------- exceptions
static const GlobalVariable* gv_at(u64 a)
{
    static std::unordered_map<u64, const GlobalVariable*> m;
    if (m.empty()) for (auto& p : gaddr) if (auto* g = dyn_cast<GlobalVariable>(p.first)) m[p.second] = g;
    auto it = m.find(a);
    return it == m.end() ? nullptr : it->second;
}
static std::string ti_name(u64 ti)
{
    auto* g = gv_at(ti);
    return g ? g->getName().str() : hex(ti);
}
// does thrown type `t` match catch type `c`? off accumulates base offset
static bool ti_match(u64 t, u64 c, u64& off, int depth = 0)
{
    if (t == c) return true;
    auto *gt = gv_at(t), *gc = gv_at(c);
    if (!gt || !gc) return false;
    if (gt->getName() == gc->getName()) return true;
    if (depth > 16 || !gt->hasInitializer()) return false;
    auto* CS = dyn_cast<ConstantStruct>(gt->getInitializer());
    if (!CS) return false;
    // { vtable, name [, base] } or { vtable, name, flags, n, (base, offflags)* }
    unsigned n = CS->getNumOperands();
    if (n == 3 && CS->getOperand(2)->getType()->isPointerTy()) return ti_match(const_addr(CS->getOperand(2)), c, off, depth + 1);
    if (n > 4) {
        for (unsigned i = 4; i + 1 < n; i += 2) {
            u64 o2 = off;
            i64 fl = cast<ConstantInt>(CS->getOperand(i + 1))->getSExtValue();
            if (fl & 1) throw Abort{"virtual base in exception type"};
            o2 += (u64)(fl >> 8);
            if (ti_match(const_addr(CS->getOperand(i)), c, o2, depth + 1)) { off = o2; return true; }
        }
    }
    return false;
}
static u64 ti_id(u64 ti) { return ti ? (ti >> 2) & 0x3fffffff : 0x3ffffff; }
// Unwind from the current top frame of the current thread; exc = exception object, ti = its type.
static void unwind(State& s, u64 exc, u64 ti, bool from_resume)
{
    Thread& t = s.th[s.cur];
    // phase 1: is there a handler?
    struct Tgt { int frame; int bb; u64 sel; bool handler; u64 adj; };
    int start = (int)t.fr.size() - 1;
    Tgt first{-1, 0, 0, false, 0};
    bool handler = false;
    for (int i = start; i >= 0 && !handler; i--) {
        Frame& f = t.fr[(size_t)i];
        const KI& k = f.f->bbs[(size_t)f.bb][(size_t)f.pc];
        if (k.opc != Instruction::Invoke) {
            if (f.f->F->doesNotThrow() && !(i == start && from_resume)) violate(s, "terminate", "exception " + ti_name(ti) + " leaves noexcept function " + fname(f.f->F));
            continue;
        }
        int ub = (int)k.x[1];
        const BasicBlock* B = nullptr;
        { int n = 0; for (auto& bb : *f.f->F) { if (n++ == ub) { B = &bb; break; } } }
        const LandingPadInst* LP = B->getLandingPadInst();
        u64 sel = 0, adj = 0;
        bool h = false, stop = LP->isCleanup();
        for (unsigned c = 0; c < LP->getNumClauses() && !h; c++) {
            if (LP->isCatch(c)) {
                Constant* C = LP->getClause(c);
                if (C->isNullValue()) { h = true; sel = ti_id(0); adj = 0; break; }
                u64 ca = const_addr(C), off = 0;
                if (ti_match(ti, ca, off)) { h = true; sel = ti_id(ca); adj = off; }
            } else {
                Constant* C = LP->getClause(c);
                bool in = false;
                if (auto* A = dyn_cast<ConstantArray>(C)) for (unsigned q = 0; q < A->getNumOperands(); q++) { u64 off = 0; if (ti_match(ti, const_addr(A->getOperand(q)), off)) in = true; }
                if (!in) { h = true; sel = (u64)-1; }
            }
        }
        if ((h || stop) && first.frame < 0) first = Tgt{i, ub, h ? sel : 0, h, adj};
        handler |= h;
    }
    if (!handler) violate(s, "uncaught-exception", ti_name(ti));
    while ((int)t.fr.size() - 1 > first.frame) pop_frame(s, t);
    Frame& f = t.fr.back();
    goto_bb(s, f, first.bb);
    const KI& lp = f.f->bbs[(size_t)f.bb][(size_t)f.pc];
    if (lp.opc != Instruction::LandingPad) throw Abort{"landingpad expected"};
    f.regs[(size_t)lp.dest] = Val(exc);
    f.regs[(size_t)lp.dest + 1] = Val(first.sel & 0xffffffff);
    // adjusted pointer lives in the header: exc - 8
    if (first.handler) store(s, Val(exc - 8), Val(exc + first.adj), 8, 64, true);
    f.pc++;
}

// ---------------------------------------------------------------- threads
static void vc_join(VC& a, const VC& b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static bool enabled(State& s, int i)
{
    Thread& t = s.th[(size_t)i];
    switch (t.st) {
    case TRun: return true;
    case TMutex: return s.mtx[t.wait].owner < 0;
    case TCond: return false;
    case TCondTimed: return true; // may time out
    case TJoin: return s.th[(size_t)t.wait].st == TDone;
    case TWaitVal: return false;
    case TDone: return false;
    }
    return false;
}
static void wake(State& s, int i)
{
    // called when thread i is chosen to run
    Thread& t = s.th[(size_t)i];
    if (t.st == TCondTimed) { // timeout fires: go on to re-acquire the mutex
        auto it = s.condwaiters.find(t.wait);
        if (it != s.condwaiters.end() && --it->second <= 0) s.condwaiters.erase(it);
        t.st = TMutex; t.timed_out = true; t.wait = t.wait2; s.clock = std::max(s.clock, t.deadline);
        if (s.mtx[t.wait].owner >= 0) return; // still blocked; caller must re-pick
    }
    if (t.st == TMutex || t.st == TJoin) t.st = TRun;
}
static void switch_to(State& s, int i)
{
    s.sched.push_back(i);
    wake(s, i);
    s.cur = i;
}
// record a schedule decision as a symbolic variable fixed to the chosen thread
static void sched_choice(State& s, int chosen)
{
    Expr* v = new_input(s, "sched", 8, false);
    s.model.back() = (u64)chosen;
    add_pc(s, X.bin(EQ, v, X.c((u64)chosen, 8)));
}
// current thread cannot continue: pick another (fork over all enabled)
static void block_switch(State& s)
{
    for (;;) {
        std::vector<int> en, timed;
        for (int i = 0; i < (int)s.th.size(); i++) if (enabled(s, i)) { if (s.th[(size_t)i].st == TCondTimed) timed.push_back(i); else en.push_back(i); }
        if (s.spurious < opt_spurious)
            ; // spurious wakeups are offered at cond_wait itself
        // nothing else can run: the earliest timer fires (any later one only as a preemption)
        size_t late = SIZE_MAX;
        if (en.empty() && !timed.empty()) {
            std::stable_sort(timed.begin(), timed.end(), [&](int a, int b) { return s.th[(size_t)a].deadline < s.th[(size_t)b].deadline; });
            late = 1;
            while (late < timed.size() && s.th[(size_t)timed[late]].deadline == s.th[(size_t)timed[0]].deadline) late++;
            en = timed;
            if (s.preempt >= opt_preempt) en.resize(late);
        }
        if (en.empty()) {
            bool all = true;
            std::string d;
            for (auto& t : s.th) if (t.st != TDone) { all = false; d += " thread " + std::to_string(&t - &s.th[0]) + (t.st == TMutex ? " waits for mutex" : t.st == TJoin ? " joins" : " waits on condition"); }
            if (all) throw PathEnd();
            // pick a live thread for the backtrace
            for (int i = 0; i < (int)s.th.size(); i++) if (s.th[(size_t)i].st != TDone) { s.cur = i; break; }
            violate(s, "deadlock", d);
        }
        if (opt_preempt < 0) { // one schedule: round robin
            size_t k = 0;
            while (k < en.size() && en[k] <= s.cur) k++;
            if (en.size() > 1) en = {en[k < en.size() ? k : 0]};
        }
        st_schedpts++;
        for (size_t k = 1; k < en.size(); k++) {
            State* n = clone(s);
            if (k >= late) n->preempt++;
            sched_choice(*n, en[k]);
            switch_to(*n, en[k]);
            if (n->th[(size_t)en[k]].st != TRun) { delete n; continue; }
            work.push_back(n);
        }
        if (en.size() > 1) sched_choice(s, en[0]);
        switch_to(s, en[0]);
        if (s.th[(size_t)s.cur].st == TRun) return;
    }
}
static void thread_finish(State& s)
{
    Thread& t = s.th[s.cur];
    t.st = TDone;
    if (s.cur == 0) throw PathEnd();
    block_switch(s);
}
// scheduling point before a visible operation of the running thread: fork preemptions.
static void sched_point(State& s)
{
    if (s.th.size() <= 1) return;
    Thread& t = s.th[s.cur];
    if (t.sched_done) return;
    if (s.preempt >= opt_preempt) return;
    st_schedpts++;
    for (int i = 0; i < (int)s.th.size(); i++) {
        if (i == s.cur || !enabled(s, i) || s.th[(size_t)i].st == TCondTimed) continue;
        State* n = clone(s);
        n->preempt++;
        n->th[(size_t)n->cur].sched_done = true;
        sched_choice(*n, i);
        // record "position": preemption taken at this point
        switch_to(*n, i);
        work.push_back(n);
    }
    s.sched.push_back(-1); // continue
    t.sched_done = true;   // cleared when the instruction completes
}
static void hb_tick(State& s) { Thread& t = s.th[s.cur]; t.vc[(size_t)s.cur]++; }

static Mutex& mutex_at(State& s, u64 a, unsigned n = 40)
{
    int r; long idx;
    Obj* o = lookup(s, a, r, idx);
    check_access(s, o, a, n > 8 ? 8 : n, true);
    return s.mtx[a];
}
static bool mutex_lock(State& s, u64 a, bool recursive)
{
    Mutex& m = mutex_at(s, a);
    if (m.owner < 0) { m.owner = s.cur; m.count = 1; if (m.vc.size()) vc_join(s.th[s.cur].vc, m.vc); return true; }
    if (m.owner == s.cur && recursive) { m.count++; return true; }
    if (m.owner == s.cur) violate(s, "deadlock", "thread relocks a non-recursive mutex it holds");
    return false;
}
static void mutex_unlock(State& s, u64 a)
{
    Mutex& m = mutex_at(s, a);
    if (m.owner != s.cur) violate(s, "mutex-misuse", "unlock of a mutex not held");
    if (--m.count == 0) {
        m.owner = -1;
        Thread& t = s.th[s.cur];
        if (m.vc.empty()) m.vc.assign(MAXTH, 0);
        vc_join(m.vc, t.vc);
        hb_tick(s);
        if (!s.mt) s.mtx.erase(a);
    }
}

static u64 tls_addr(State& s, const GlobalVariable* G)
{
    Thread& t = s.th[s.cur];
    auto it = t.tls.find(G);
    if (it != t.tls.end()) return it->second;
    Obj* o = alloc(s, 1, DL->getTypeAllocSize(G->getValueType()), KTls, 16, nullptr);
    o->name = G->getName().str();
    if (G->hasInitializer()) write_const(o, 0, G->getInitializer());
    t.tls[G] = o->addr;
    return o->addr;
}

// ---------------------------------------------------------------- external functions
static Val do_bin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w);
#include "externs.inc"

// ---------------------------------------------------------------- instruction step
static Op icmp_op(CmpInst::Predicate p, bool& sw, bool& neg)
{
    sw = neg = false;
    switch (p) {
    case CmpInst::ICMP_EQ: return EQ;
    case CmpInst::ICMP_NE: neg = true; return EQ;
    case CmpInst::ICMP_ULT: return ULT;
    case CmpInst::ICMP_ULE: return ULE;
    case CmpInst::ICMP_UGT: sw = true; return ULT;
    case CmpInst::ICMP_UGE: sw = true; return ULE;
    case CmpInst::ICMP_SLT: return SLT;
    case CmpInst::ICMP_SLE: return SLE;
    case CmpInst::ICMP_SGT: sw = true; return SLT;
    case CmpInst::ICMP_SGE: sw = true; return SLE;
    default: throw Abort{"icmp"};
    }
}
static Val do_bin(State& s, unsigned opc, const Val& a, const Val& b, unsigned w)
{
    Op op;
    switch (opc) {
    case Instruction::Add: op = ADD; break;
    case Instruction::Sub: op = SUB; break;
    case Instruction::Mul: op = MUL; break;
    case Instruction::UDiv: op = UDIV; break;
    case Instruction::SDiv: op = SDIV; break;
    case Instruction::URem: op = UREM; break;
    case Instruction::SRem: op = SREM; break;
    case Instruction::And: op = AND; break;
    case Instruction::Or: op = OR; break;
    case Instruction::Xor: op = XOR; break;
    case Instruction::Shl: op = SHL; break;
    case Instruction::LShr: op = LSHR; break;
    case Instruction::AShr: op = ASHR; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        Op fo = opc == Instruction::FAdd ? FADD : opc == Instruction::FSub ? FSUB : opc == Instruction::FMul ? FMUL : FDIV;
        return Val(X.fp(fo, w, E(a, w), E(b, w)));
    }
    default: throw Abort{"binop " + std::to_string(opc)};
    }
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
        if (b.conc() ? b.c == 0 : decide(s, X.bin(EQ, b.e, X.c(0, w)))) violate(s, "division-by-zero", "");
    }
    if (a.conc() && b.conc() && w <= 64) return Val((u64)ExprCtx::fold(op, w, a.c, b.c, w));
    return Val(X.bin(op, E(a, w), E(b, w)));
}
static void do_call(State& s, Thread& t, Frame& f, const KI& k);

static void step1(State& s);
static inline void step(State& s)
{
    int c = s.cur;
    if (opt_trace) {
        Frame& f = s.th[(size_t)c].fr.back();
        const KI& k = f.f->bbs[(size_t)f.bb][(size_t)f.pc];
        std::string b; raw_string_ostream os(b); k.I->print(os);
        size_t p = b.find(", !"); if (p != std::string::npos) b.resize(p);
        std::string o;
        for (size_t i = 0; i < k.ops.size(); i++) { const Val& v = R(f, k.ops[i]); o += v.conc() ? " " + hex(v.c) : " sym"; }
        fprintf(stderr, "[%d] %s%s   <-%s\n", c, f.f->name.substr(0, 24).c_str(), b.c_str(), o.c_str());
    }
    step1(s);
    if (s.keep_sched) s.keep_sched = false;
    else s.th[(size_t)c].sched_done = false;
}
static void step1(State& s)
{
    Thread& t = s.th[s.cur];
    Frame& f = t.fr.back();
    const KI& k = f.f->bbs[(size_t)f.bb][(size_t)f.pc];
    st_instr++;
    if (++s.steps > opt_maxsteps) violate(s, "step-bound", "path exceeded " + std::to_string(opt_maxsteps) + " instructions (possible non-termination)");
    switch (k.opc) {
    case Instruction::Ret: {
        std::vector<Val> rv;
        auto* RI = cast<ReturnInst>(k.I);
        if (RI->getReturnValue()) { unsigned n = nleaves(RI->getReturnValue()->getType()); for (unsigned i = 0; i < n; i++) rv.push_back(R(f, k.ops[0], (int)i)); }
        do_return(s, rv);
        return;
    }
    case Instruction::Br:
        if (k.ops.empty()) { goto_bb(s, f, (int)k.x[0]); return; }
        {
            const Val& c = R(f, k.ops[0]);
            bool b = c.conc() ? (c.c & 1) : decide(s, c.e);
            goto_bb(s, f, (int)k.x[b ? 0 : 1]);
            return;
        }
    case Instruction::Switch: {
        const Val& c = R(f, k.ops[0]);
        if (c.conc()) {
            for (size_t i = 1; i < k.x.size(); i += 2) if (k.x[i] == c.c) { goto_bb(s, f, (int)k.x[i + 1]); return; }
            goto_bb(s, f, (int)k.x[0]);
            return;
        }
        Expr* ce = c.e;
        for (size_t i = 1; i < k.x.size(); i += 2)
            if (decide(s, X.bin(EQ, ce, X.c(k.x[i], k.opw[0])))) { goto_bb(s, f, (int)k.x[i + 1]); return; }
        goto_bb(s, f, (int)k.x[0]);
        return;
    }
    case Instruction::Unreachable: violate(s, "unreachable", "reached an unreachable instruction (undefined behaviour)");
    case Instruction::Alloca: {
        u64 n = concretize(s, R(f, k.ops[0])) * k.x[0];
        int r = 2 + s.cur;
        Obj* o = alloc(s, r, n, KStack, k.x[1], k.I);
        make_uninit(o);
        f.regs[(size_t)k.dest] = Val(o->addr);
        f.pc++;
        return;
    }
    case Instruction::Load: {
        auto* L = cast<LoadInst>(k.I);
        bool at = L->isAtomic();
        if (at && s.mt) {
            sched_point(s);
        }
        Val a = R(f, k.ops[0]);
        if (k.nleaf == 1 && !L->getType()->isAggregateType() && !L->getType()->isVectorTy()) {
            Val v = load(s, a, (k.w + 7) / 8, k.w, at);
            f.regs[(size_t)k.dest] = v;
        } else {
            std::vector<Leaf> l;
            leaves(L->getType(), 0, l);
            u64 base = concretize(s, a);
            for (size_t i = 0; i < l.size(); i++) f.regs[(size_t)k.dest + i] = load(s, Val(base + l[i].off), l[i].nb, l[i].w, at);
        }
        if (at && s.mt && a.conc() && L->getOrdering() != AtomicOrdering::Monotonic && L->getOrdering() != AtomicOrdering::Unordered) {
            auto it = s.atomvc.find(a.c);
            if (it != s.atomvc.end()) vc_join(t.vc, it->second);
        }
        f.pc++;
        return;
    }
    case Instruction::Store: {
        auto* St = cast<StoreInst>(k.I);
        bool at = St->isAtomic();
        if (at && s.mt) sched_point(s);
        Val a = R(f, k.ops[1]);
        Type* T = St->getValueOperand()->getType();
        if (!T->isAggregateType() && !T->isVectorTy()) store(s, a, R(f, k.ops[0]), (k.opw[0] + 7) / 8, k.opw[0], at);
        else {
            std::vector<Leaf> l;
            leaves(T, 0, l);
            u64 base = concretize(s, a);
            for (size_t i = 0; i < l.size(); i++) store(s, Val(base + l[i].off), R(f, k.ops[0], (int)i), l[i].nb, l[i].w, at);
        }
        if (at && s.mt && a.conc()) {
            VC& v = s.atomvc[a.c];
            if (St->getOrdering() != AtomicOrdering::Monotonic && St->getOrdering() != AtomicOrdering::Unordered) { v = t.vc; v.resize(MAXTH, 0); hb_tick(s); }
            else v.assign(MAXTH, 0);
        }
        f.pc++;
        return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
        if (s.mt) sched_point(s);
        auto* A = cast<AtomicRMWInst>(k.I);
        u64 a = concretize(s, R(f, k.ops[0]));
        unsigned w = k.w;
        Val old = load(s, Val(a), w / 8, w, true), v = R(f, k.ops[1]), nv;
        switch (A->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = do_bin(s, Instruction::Add, old, v, w); break;
        case AtomicRMWInst::Sub: nv = do_bin(s, Instruction::Sub, old, v, w); break;
        case AtomicRMWInst::And: nv = do_bin(s, Instruction::And, old, v, w); break;
        case AtomicRMWInst::Or: nv = do_bin(s, Instruction::Or, old, v, w); break;
        case AtomicRMWInst::Xor: nv = do_bin(s, Instruction::Xor, old, v, w); break;
        case AtomicRMWInst::UMax: nv = Val(X.ite(X.bin(ULT, E(old, w), E(v, w)), E(v, w), E(old, w))); break;
        case AtomicRMWInst::UMin: nv = Val(X.ite(X.bin(ULT, E(old, w), E(v, w)), E(old, w), E(v, w))); break;
        default: throw Abort{"atomicrmw"};
        }
        store(s, Val(a), nv, w / 8, w, true);
        f.regs[(size_t)k.dest] = old;
        if (s.mt) {
            auto it = s.atomvc.find(a);
            if (A->getOrdering() != AtomicOrdering::Monotonic) {
                if (it != s.atomvc.end()) vc_join(t.vc, it->second);
                VC& x = s.atomvc[a];
                x.resize(MAXTH, 0);
                vc_join(x, t.vc);
                hb_tick(s);
            }
        }
        f.pc++;
        return;
    }
    case Instruction::AtomicCmpXchg: {
        if (s.mt) sched_point(s);
        u64 a = concretize(s, R(f, k.ops[0]));
        unsigned w = k.opw[1];
        Val old = load(s, Val(a), w / 8, w, true), cmp = R(f, k.ops[1]), nv = R(f, k.ops[2]);
        bool eq = old.conc() && cmp.conc() ? old.c == cmp.c : decide(s, X.bin(EQ, E(old, w), E(cmp, w)));
        if (s.mt) { auto it = s.atomvc.find(a); if (it != s.atomvc.end()) vc_join(t.vc, it->second); }
        if (eq) {
            store(s, Val(a), nv, w / 8, w, true);
            if (s.mt) { VC& x = s.atomvc[a]; x.resize(MAXTH, 0); vc_join(x, t.vc); hb_tick(s); }
        }
        f.regs[(size_t)k.dest] = old;
        f.regs[(size_t)k.dest + 1] = Val((u64)eq);
        f.pc++;
        return;
    }
    case Instruction::GetElementPtr: {
        Val a = R(f, k.ops[0]);
        size_t n = k.x.size() - 1;
        u64 c = k.x[n];
        if (a.conc()) {
            u64 r = a.c + c;
            size_t i = 0;
            for (; i < n; i++) {
                const Val& v = R(f, k.ops[i + 1]);
                if (!v.conc()) break;
                unsigned w = k.opw[i + 1];
                u64 x = w < 64 ? (u64)(i64)sx(v.c, w) : v.c;
                r += x * k.x[i];
            }
            if (i == n) { f.regs[(size_t)k.dest] = Val(r); f.pc++; return; }
        }
        Expr* e = E(a, 64);
        for (size_t i = 0; i < n; i++) {
            const Val& v = R(f, k.ops[i + 1]);
            unsigned w = k.opw[i + 1];
            Expr* ie = E(v, w);
            if (w < 64) ie = X.sext(ie, 64);
            e = X.bin(ADD, e, X.bin(MUL, ie, X.c(k.x[i], 64)));
        }
        e = X.bin(ADD, e, X.c(c, 64));
        f.regs[(size_t)k.dest] = Val(e);
        f.pc++;
        return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
        std::vector<Leaf> l;
        unsigned nl = k.nleaf, w = k.w;
        if (nl != 1) { leaves(k.I->getType(), 0, l); w = l[0].w; }
        unsigned iw = k.opw[0];
        for (unsigned i = 0; i < nl; i++) {
            Val v = R(f, k.ops[0], (int)i), r;
            switch (k.opc) {
            case Instruction::Trunc:
                if (v.conc()) r = Val(v.c & (u64)mask(w)); else r = Val(X.extract(v.e, 0, w));
                break;
            case Instruction::ZExt:
                if (v.conc() && w <= 64) r = v; else { r = Val(); r.e = X.zext(E(v, iw), w); if (r.e->op == CONST && w <= 64) r = Val(r.e); }
                break;
            case Instruction::SExt:
                if (v.conc() && w <= 64) r = Val((u64)sx(v.c, iw) & (u64)mask(w)); else { r.e = X.sext(E(v, iw), w); if (r.e->op == CONST && w <= 64) r = Val(r.e); }
                break;
            case Instruction::PtrToInt: case Instruction::IntToPtr:
                if (w == iw) r = v;
                else if (w < iw) r = v.conc() ? Val(v.c & (u64)mask(w)) : Val(X.extract(v.e, 0, w));
                else r = v.conc() ? v : Val(X.zext(v.e, w));
                break;
            case Instruction::FPToUI: r = Val(X.fp(FTOU, w, E(v, iw))); break;
            case Instruction::FPToSI: r = Val(X.fp(FTOS, w, E(v, iw))); break;
            case Instruction::UIToFP: r = Val(X.fp(FFROMU, w, E(v, iw))); break;
            case Instruction::SIToFP: r = Val(X.fp(FFROMS, w, E(v, iw))); break;
            default: r = Val(X.fp(FCVT, w, E(v, iw))); break;
            }
            f.regs[(size_t)k.dest + i] = r;
        }
        f.pc++;
        return;
    }
    case Instruction::BitCast: {
        std::vector<Leaf> li, lo;
        leaves(k.I->getOperand(0)->getType(), 0, li);
        leaves(k.I->getType(), 0, lo);
        if (li.size() == lo.size()) for (size_t i = 0; i < li.size(); i++) f.regs[(size_t)k.dest + i] = R(f, k.ops[0], (int)i);
        else {
            // through a bit string
            Expr* e = nullptr;
            u64 tot = 0;
            for (size_t i = 0; i < li.size(); i++) { Expr* x = E(R(f, k.ops[0], (int)i), li[i].w); tot += li[i].w; if (tot > 128) throw Abort{"wide bitcast"}; e = e ? X.concat(x, e) : x; }
            unsigned o = 0;
            for (size_t i = 0; i < lo.size(); i++) { f.regs[(size_t)k.dest + i] = Val(X.extract(e, o, lo[i].w)); if (lo[i].w > 64) f.regs[(size_t)k.dest + i].e = X.extract(e, o, lo[i].w); o += lo[i].w; }
        }
        f.pc++;
        return;
    }
    case Instruction::Freeze:
        for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = R(f, k.ops[0], (int)i);
        f.pc++;
        return;
    case Instruction::ICmp: {
        bool sw, neg;
        Op op = icmp_op(cast<ICmpInst>(k.I)->getPredicate(), sw, neg);
        unsigned w = k.opw[0];
        for (unsigned i = 0; i < k.nleaf; i++) {
            Val a = R(f, k.ops[0], (int)i), b = R(f, k.ops[1], (int)i);
            if (sw) std::swap(a, b);
            Val r;
            if (a.conc() && b.conc()) r = Val((u64)ExprCtx::fold(op, w, a.c, b.c, w) ^ (neg ? 1 : 0));
            else { Expr* e = X.bin(op, E(a, w), E(b, w)); r = Val(neg ? X.notE(e) : e); }
            f.regs[(size_t)k.dest + i] = r;
        }
        f.pc++;
        return;
    }
    case Instruction::FCmp: {
        unsigned w = k.opw[0];
        Expr *a = E(R(f, k.ops[0]), w), *b = E(R(f, k.ops[1]), w);
        Expr* un = X.fp(FUNO, 1, a, b);
        Expr* r;
        switch (cast<FCmpInst>(k.I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = X.fp(FEQ, 1, a, b); break;
        case CmpInst::FCMP_OLT: r = X.fp(FLT, 1, a, b); break;
        case CmpInst::FCMP_OLE: r = X.fp(FLE, 1, a, b); break;
        case CmpInst::FCMP_OGT: r = X.fp(FLT, 1, b, a); break;
        case CmpInst::FCMP_OGE: r = X.fp(FLE, 1, b, a); break;
        case CmpInst::FCMP_ONE: r = X.bin(AND, X.notE(un), X.notE(X.fp(FEQ, 1, a, b))); break;
        case CmpInst::FCMP_ORD: r = X.notE(un); break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = X.bin(OR, un, X.fp(FEQ, 1, a, b)); break;
        case CmpInst::FCMP_ULT: r = X.bin(OR, un, X.fp(FLT, 1, a, b)); break;
        case CmpInst::FCMP_ULE: r = X.bin(OR, un, X.fp(FLE, 1, a, b)); break;
        case CmpInst::FCMP_UGT: r = X.bin(OR, un, X.fp(FLT, 1, b, a)); break;
        case CmpInst::FCMP_UGE: r = X.bin(OR, un, X.fp(FLE, 1, b, a)); break;
        case CmpInst::FCMP_UNE: r = X.notE(X.fp(FEQ, 1, a, b)); break;
        default: throw Abort{"fcmp"};
        }
        f.regs[(size_t)k.dest] = Val(r);
        f.pc++;
        return;
    }
    case Instruction::FNeg: {
        Expr* a = E(R(f, k.ops[0]), k.w);
        f.regs[(size_t)k.dest] = Val(X.bin(XOR, a, X.c((u128)1 << (k.w - 1), k.w)));
        f.pc++;
        return;
    }
    case Instruction::Select: {
        unsigned nc = nleaves(k.I->getOperand(0)->getType());
        std::vector<Leaf> l;
        leaves(k.I->getType(), 0, l);
        for (unsigned i = 0; i < k.nleaf; i++) {
            Val c = R(f, k.ops[0], nc == 1 ? 0 : (int)i);
            Val a = R(f, k.ops[1], (int)i), b = R(f, k.ops[2], (int)i);
            if (c.conc()) f.regs[(size_t)k.dest + i] = (c.c & 1) ? a : b;
            else if (a.conc() && b.conc() && a.c == b.c) f.regs[(size_t)k.dest + i] = a;
            else if (k.I->getType()->isPointerTy() || (opt_forksel && k.w > 1)) {
                // pointers: fork, so that later accesses stay concrete
                bool d = decide(s, c.e);
                f.regs[(size_t)k.dest + i] = d ? a : b;
            } else { Expr* ce = subst(s, c.e); f.regs[(size_t)k.dest + i] = Val(X.ite(ce, E(a, l[i].w), E(b, l[i].w))); }
        }
        f.pc++;
        return;
    }
    case Instruction::ExtractValue:
        for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = R(f, k.ops[0], (int)(k.x[0] + i));
        f.pc++;
        return;
    case Instruction::InsertValue:
        for (unsigned i = 0; i < k.nleaf; i++)
            f.regs[(size_t)k.dest + i] = (i >= k.x[0] && i < k.x[0] + k.x[1]) ? R(f, k.ops[1], (int)(i - k.x[0])) : R(f, k.ops[0], (int)i);
        f.pc++;
        return;
    case Instruction::ExtractElement: {
        u64 i = concretize(s, R(f, k.ops[1]));
        f.regs[(size_t)k.dest] = R(f, k.ops[0], (int)i);
        f.pc++;
        return;
    }
    case Instruction::InsertElement: {
        u64 ix = concretize(s, R(f, k.ops[2]));
        for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = i == ix ? R(f, k.ops[1]) : R(f, k.ops[0], (int)i);
        f.pc++;
        return;
    }
    case Instruction::ShuffleVector:
        for (unsigned i = 0; i < k.nleaf; i++) {
            i64 m = (i64)k.x[1 + i];
            f.regs[(size_t)k.dest + i] = m < 0 ? Val((u64)0) : (u64)m < k.x[0] ? R(f, k.ops[0], (int)m) : R(f, k.ops[1], (int)(m - (i64)k.x[0]));
        }
        f.pc++;
        return;
    case Instruction::Resume: {
        u64 exc = concretize(s, R(f, k.ops[0]));
        u64 ti = load(s, Val(exc - 16), 8, 64, true).c;
        // continue unwinding in the caller
        Thread& tt = s.th[s.cur];
        pop_frame(s, tt);
        if (tt.fr.empty()) violate(s, "uncaught-exception", ti_name(ti));
        unwind(s, exc, ti, true);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: do_call(s, t, f, k); return;
    default: {
        if (k.I->isBinaryOp()) {
            if (k.nleaf == 1) f.regs[(size_t)k.dest] = do_bin(s, k.opc, R(f, k.ops[0]), R(f, k.ops[1]), k.w);
            else {
                std::vector<Leaf> l;
                leaves(k.I->getType(), 0, l);
                for (unsigned i = 0; i < k.nleaf; i++) f.regs[(size_t)k.dest + i] = do_bin(s, k.opc, R(f, k.ops[0], (int)i), R(f, k.ops[1], (int)i), l[i].w);
            }
            f.pc++;
            return;
        }
        throw Abort{std::string("unsupported instruction ") + k.I->getOpcodeName()};
    }
    }
}
static void do_call(State& s, Thread& t, Frame& f, const KI& k)
{
    auto* CB = cast<CallBase>(k.I);
    if (isa<InlineAsm>(CB->getCalledOperand())) { // compiler barriers only
        if (k.nleaf) throw Abort{"inline asm"};
        ext_ret(s, f, k, Val());
        return;
    }
    Function* F = CB->getCalledFunction();
    if (!F) {
        u64 a = concretize(s, R(f, k.ops.back()));
        auto it = faddr.find(a);
        if (it == faddr.end()) violate(s, a < 4096 ? "null-call" : "bad-call", "indirect call to " + hex(a));
        F = it->second;
    }
    if (F->isIntrinsic()) { do_intrinsic(s, t, f, k, F); return; }
    int ext = F->isDeclaration() ? ext_lookup(F->getName().str()) : -1;
    if (F->getName() == "__clang_call_terminate") ext = ext_lookup("__clang_call_terminate");
    if (ext >= 0) { do_extern(s, t, f, k, ext, F); return; }
    if (F->isDeclaration()) throw Abort{"undefined function " + F->getName().str() + " (" + fname(F) + ")"};
    std::vector<Val> args;
    for (unsigned i = 0; i < CB->arg_size(); i++) {
        Type* T = CB->getArgOperand(i)->getType();
        unsigned n = nleaves(T);
        if (CB->isByValArgument(i)) {
            Type* BT = CB->getParamByValType(i);
            u64 sz = DL->getTypeAllocSize(BT);
            u64 src = concretize(s, R(f, k.ops[i]));
            Obj* o = alloc(s, 1, sz, KStack, 16, k.I);
            copy_mem(s, o->addr, src, sz);
            args.push_back(Val(o->addr));
            continue;
        }
        for (unsigned l = 0; l < n; l++) args.push_back(R(f, k.ops[i], (int)l));
    }
    push_frame(s, s.th[s.cur], F, args, &k);
}

// ---------------------------------------------------------------- driver
static void finish_path(State& s)
{
    st_paths++;
    // reservoir sampling of completed paths for trace validation
    if ((int)sample_json.size() < opt_samples || rng() % st_paths < (u64)opt_samples) {
        std::string j = "{\"inputs\":" + inputs_json(s, s.model) + ",\"observed\":" + observed_json(s, s.model) + ",\"sched\":" + sched_json(s)
            + ",\"constraints\":" + std::to_string(s.pc.size()) + ",\"steps\":" + std::to_string(s.steps) + "}";
        if ((int)sample_json.size() < opt_samples) sample_json.push_back(j);
        else sample_json[rng() % (u64)opt_samples] = j;
    }
}
// run the current state until it ends
static void run_state(State* s)
{
    cur = s;
    try {
        for (;;) {
            try {
                for (;;) step(*s);
            } catch (Retry&) {}
        }
    } catch (PathEnd&) {
        finish_path(*s);
    } catch (AssumeFail&) {
        st_assume_killed++;
    }
    st_states++;
}
static double now()
{
    static auto t0 = std::chrono::steady_clock::now();
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
static void setup_globals(State& s)
{
    Region& R0 = s.reg[0];
    R0.next = GLOBAL_BASE;
    s.reg[1].next = HEAP_BASE;
    for (int i = 0; i < MAXTH; i++) s.reg[2 + i].next = STACK_BASE + (u64)i * STACK_SPAN;
    for (auto& F : *M) {
        Obj* o = alloc(s, 0, 1, KFunc, 16, nullptr);
        o->name = F.getName().str();
        o->ro = true;
        gaddr[&F] = o->addr;
        faddr[o->addr] = &F;
    }
    std::vector<std::pair<GlobalVariable*, size_t>> gs;
    for (auto& G : M->globals()) {
        if (G.isThreadLocal()) continue;
        if (G.getName().starts_with("llvm.")) continue;
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
        if (!G.hasInitializer()) sz = std::max<u64>(sz, 64);
        Obj* o = alloc(s, 0, sz, KGlobal, std::max<u64>(16, G.getAlign().valueOrOne().value()), nullptr);
        o->name = G.getName().str();
        gaddr[&G] = o->addr;
        gs.push_back({&G, R0.n - 1});
    }
    for (auto& p : gs) {
        Obj* o = R0.atw(p.second).p;
        if (p.first->hasInitializer()) write_const(o, 0, p.first->getInitializer());
        o->ro = p.first->isConstant();
    }
}

} // namespace

#include "instrument.inc"
int main(int argc, char** argv)
{
    std::string file;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        const char* v;
        if ((v = val("--entry="))) opt_entry = v;
        else if ((v = val("--out="))) opt_out = v;
        else if ((v = val("--instrument="))) opt_instrument = v;
        else if ((v = val("--src="))) opt_src = v;
        else if ((v = val("--preempt="))) opt_preempt = atoi(v);
        else if ((v = val("--spurious="))) opt_spurious = atoi(v);
        else if ((v = val("--race="))) opt_race = atoi(v);
        else if ((v = val("--max-steps="))) opt_maxsteps = strtoull(v, 0, 10);
        else if ((v = val("--max-paths="))) opt_maxpaths = strtoull(v, 0, 10);
        else if ((v = val("--time="))) opt_time = atof(v);
        else if ((v = val("--mem="))) opt_mem = (size_t)atol(v);
        else if ((v = val("--ite="))) opt_ite_limit = (unsigned)atoi(v);
        else if ((v = val("--split="))) { sscanf(v, "%d/%d", &opt_split_k, &opt_split_n); }
        else if ((v = val("--samples="))) opt_samples = atoi(v);
        else if ((v = val("--seed="))) rng.seed(strtoull(v, 0, 10));
        else if ((v = val("--patience="))) opt_patience = atof(v);
        else if ((v = val("--solver-timeout="))) opt_solver_to = (unsigned)atoi(v);
        else if (a == "--trace") opt_trace = true;
        else if (a == "--fork-select") opt_forksel = true;
        else if ((v = val("-P"))) { const char* e = strchr(v, '='); params[std::string(v, e)] = strtoull(e + 1, 0, 0); }
        else file = a;
    }
    struct rlimit rl{(rlim_t)1 << 30, (rlim_t)1 << 30};
    setrlimit(RLIMIT_STACK, &rl);
    SMDiagnostic err;
    auto mod = parseIRFile(file, err, Ctx);
    if (!mod) { err.print("vfe", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    if (!opt_instrument.empty()) return instrument(*mod, opt_instrument);
    Solver solver(X);
    S = &solver;
    S->timeout_ms = opt_solver_to * 1000;
    init_externs();
    // reach labels present in the module
    for (auto& F : *M) for (auto& I : instructions(F))
        if (auto* CB = dyn_cast<CallBase>(&I)) if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "vf_reach") {
            if (auto* G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts()))
                if (G->hasInitializer()) if (auto* D = dyn_cast<ConstantDataArray>(G->getInitializer())) if (D->isCString()) reach_labels.insert(D->getAsCString().str());
        }
    std::string status = "ok", detail;
    now();
    bool exhausted = true;
    try {
        State* s = new State();
        setup_globals(*s);
        s->th.reserve(MAXTH);
        s->th.emplace_back();
        s->th[0].vc.assign(MAXTH, 0);
        s->th[0].vc[0] = 1;
        Function* entry = M->getFunction(opt_entry);
        if (!entry) throw Abort{"no entry " + opt_entry};
        // global constructors, then the entry; run as a chain of frames
        std::vector<std::pair<u64, Function*>> ctors;
        if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& o : CA->operands()) {
                auto* CS = cast<ConstantStruct>(o.get());
                if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        in_ctors = true;
        for (auto& c : ctors) {
            push_frame(*s, s->th[0], c.second, {}, nullptr);
            try { for (;;) step(*s); } catch (PathEnd&) {}
            s->th[0].st = TRun;
        }
        in_ctors = false;
        s->nheap_live = 0;
        s->steps = 0;
        push_frame(*s, s->th[0], entry, {}, nullptr);
        work.push_back(s);
        // optional static partition of the search tree
        if (opt_split_n > 1) {
            // breadth-first until enough states exist, then keep every n-th.
            // states that end during this phase are reported by part 0 only.
            std::deque<State*> q;
            q.push_back(work.back());
            work.clear();
            size_t target = (size_t)opt_split_n * 12;
            u64 guard = 0;
            while (!q.empty() && q.size() < target && guard++ < 20000) {
                State* x = q.front();
                q.pop_front();
                cur = x;
                // run until it forks or ends
                bool done = false;
                try {
                    while (work.empty()) step(*x);
                } catch (PathEnd&) { finish_path(*x); done = true; st_states++; }
                catch (AssumeFail&) { st_assume_killed++; done = true; st_states++; }
                for (auto* w : work) q.push_back(w);
                work.clear();
                if (!done) q.push_back(x); else delete x;
                if (now() > opt_time) throw Abort{"time limit"};
            }
            size_t i = 0;
            for (auto* x : q) { if ((int)(i++ % (size_t)opt_split_n) == opt_split_k) work.push_back(x); else delete x; }
            if (opt_split_k != 0) { st_paths = 0; st_states = 0; st_assume_killed = 0; sample_json.clear(); }
        }
        u64 it = 0;
        while (!work.empty()) {
            State* x = work.back();
            work.pop_back();
            run_state(x);
            delete x;
            if ((++it & 15) == 0) {
                if (now() > opt_time) { exhausted = false; status = "timeout"; break; }
                if (st_paths >= opt_maxpaths) { exhausted = false; status = "path-limit"; break; }
            }
            if ((it & 255) == 0) {
                struct rusage ru; getrusage(RUSAGE_SELF, &ru);
                if ((size_t)ru.ru_maxrss / 1024 > opt_mem) { exhausted = false; status = "memory"; break; }
            }
            if (getenv("VF_PROGRESS") && (it & 127) == 0)
                fprintf(stderr, "[%.1fs] states %llu paths %llu work %zu instr %llu z3 %llu (%.1fs) cache %llu modelhit %llu exprs %zu\n", now(), (unsigned long long)st_states, (unsigned long long)st_paths, work.size(), (unsigned long long)st_instr, (unsigned long long)S->n_z3, S->z3_time, (unsigned long long)S->n_cache, (unsigned long long)S->n_model_hit, X.count);
        }
        if (n_pinned && status == "ok") { status = "incomplete"; detail = "the solver gave up on " + std::to_string(n_pinned) + " path(s)"; exhausted = false; }
    } catch (Found&) {
        status = "violation";
        exhausted = false;
    } catch (Abort& a) {
        status = "abort";
        detail = a.what;
        exhausted = false;
        if (cur && !cur->th.empty()) for (auto& l : bt(*cur)) detail += "\n  at " + l;
    }
    std::string o = "{\"status\":\"" + status + "\",\"detail\":\"" + jesc(detail) + "\",\"entry\":\"" + jesc(opt_entry) + "\",\"exhausted\":" + (exhausted ? "true" : "false");
    auto num = [&](const char* n, u64 v) { o += std::string(",\"") + n + "\":" + std::to_string(v); };
    num("paths", st_paths); num("states", st_states); num("forks", st_forks); num("instructions", st_instr); num("assume_killed", st_assume_killed);
    num("checks", st_checks); num("sched_points", st_schedpts); num("queries", S->n_queries); num("z3_queries", S->n_z3); num("z3_sat", S->n_sat); num("z3_unsat", S->n_unsat);
    num("cache_hits", S->n_cache); num("model_hits", S->n_model_hit); num("unknown", S->n_unknown);
    o += ",\"z3_time\":" + std::to_string(S->z3_time) + ",\"time\":" + std::to_string(now());
    o += ",\"reached\":[";
    { bool fst = true; for (auto& r : reached) { if (!fst) o += ","; fst = false; o += "\"" + jesc(r) + "\""; } }
    o += "],\"labels\":[";
    { bool fst = true; for (auto& r : reach_labels) { if (!fst) o += ","; fst = false; o += "\"" + jesc(r) + "\""; } }
    o += "],\"functions\":[";
    {
        // functions of the code under test in the interpreted functions, also those the compiler inlined into them
        std::set<std::string> names;
        auto add = [&](const DISubprogram* SP) {
            if (!SP || SP->getFilename().str().compare(0, opt_src.size(), opt_src) != 0) return;
            std::string m = SP->getLinkageName().empty() ? SP->getName().str() : llvm::demangle(SP->getLinkageName().str());
            if (m.size() > 200) m = m.substr(0, 200);
            names.insert(m);
        };
        for (auto& p : kfs) if (p.second->used) {
            if (auto* SP = p.first->getSubprogram()) {
                if (SP->getFilename().str().compare(0, opt_src.size(), opt_src) == 0) names.insert(fname(p.first).substr(0, 200));
            }
            std::set<const DILocation*> seen;
            for (auto& B : *p.first)
                for (auto& I : B)
                    for (const DILocation* L = I.getDebugLoc().get() ? I.getDebugLoc()->getInlinedAt() ? I.getDebugLoc().get() : nullptr : nullptr; L && L->getInlinedAt() && seen.insert(L).second; L = L->getInlinedAt())
                        add(L->getScope()->getSubprogram());
        }
        bool fst = true;
        for (auto& n : names) {
            if (!fst) o += ",";
            fst = false;
            o += "\"" + jesc(n) + "\"";
        }
    }
    o += "],\"samples\":[";
    for (size_t i = 0; i < sample_json.size(); i++) { if (i) o += ","; o += sample_json[i]; }
    o += "]";
    if (status == "violation") o += ",\"violation\":" + violation_json;
    o += "}\n";
    if (opt_out.empty()) fputs(o.c_str(), stdout);
    else { std::ofstream of(opt_out); of << o; }
    fflush(stdout);
    _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}

// Native replay runtime: runs the instrumented bitcode of a harness with the inputs and the schedule of a
// path found by the engine. Linked with a module produced by `vfe --instrument`, where all thread operations and
// atomic instructions come here. Exit codes: 0 completed (and matched the expected observations), 10 a check failed
// (message on stdout), 11 deadlock, 4 the run left the recorded path.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct In { std::string n; uint64_t v; };
struct R {
    std::vector<In> in;
    size_t inpos = 0;
    std::vector<int> sched;
    size_t spos = 0;
    std::vector<uint64_t> exp, obs;
    std::map<std::string, uint64_t> par;
    bool has_exp = false, blocked_end = false;
    long preempt = 0, preempt_max = 0, spurious = 0, spurious_max = 0;
    uint64_t clock = 1000000000ull;
    long live = 0;
    std::map<uintptr_t, size_t> objs;
};
R* g;
R& rr() { if (!g) g = new R; return *g; }
enum St { Run, Mtx, Cond, CondT, Join, Done };
struct Th { uint64_t deadline = 0; St st = Run; void* wait = nullptr; void* wait2 = nullptr; int jid = 0; bool timed_out = false, joined = false; sem_t sem; void* (*fn)(void*); void* arg; pthread_t p; void* ret = nullptr; };
Th* th[64];
int nth = 0, cur = 0;
struct M { int owner = -1, count = 0; };
std::map<void*, M>* mtx;
__thread int me = 0;
[[noreturn]] void end(int code, const char* what)
{
    printf("REPLAY %s\n", what);
    fflush(stdout);
    _exit(code);
}
[[noreturn]] void diverge(const std::string& s) { end(4, ("DIVERGED " + s).c_str()); }
void init_threads()
{
    if (nth) return;
    mtx = new std::map<void*, M>;
    th[0] = new Th;
    sem_init(&th[0]->sem, 0, 0);
    nth = 1;
}
int next_sched(const char* where)
{
    R& r = rr();
    if (r.spos >= r.sched.size()) return -100;
    (void)where;
    return r.sched[r.spos++];
}
bool pick(int t) // engine's switch_to + wake
{
    if (t < 0 || t >= nth) diverge("schedule names thread " + std::to_string(t));
    Th& x = *th[t];
    if (x.st == CondT) { x.st = Mtx; x.timed_out = true; x.wait = x.wait2; if (x.deadline > rr().clock) rr().clock = x.deadline; if ((*mtx)[x.wait].owner >= 0) return false; }
    if (x.st == Mtx) { if ((*mtx)[x.wait].owner >= 0) diverge("scheduled thread is blocked"); x.st = Run; }
    else if (x.st == Join) x.st = Run;
    if (x.st != Run) diverge("scheduled thread cannot run");
    return true;
}
void hand(int t, bool wait)
{
    if (t == me) return;
    cur = t;
    int self = me;
    sem_post(&th[t]->sem);
    if (wait) while (sem_wait(&th[self]->sem) != 0) {}
}
void block(bool wait)
{
    for (;;) {
        int t = next_sched("block");
        if (t == -100) end(11, "VIOLATION deadlock: no thread can run");
        if (pick(t)) { hand(t, wait); return; }
    }
}
void point()
{
    init_threads();
    R& r = rr();
    if (nth <= 1 || r.preempt >= r.preempt_max) return;
    int t = next_sched("point");
    if (t == -1 || t == -100) return;
    r.preempt++;
    if (!pick(t)) diverge("preemption to a blocked thread");
    hand(t, true);
}
void lock(void* m)
{
    init_threads();
    M& x = (*mtx)[m];
    int kind;
    memcpy(&kind, static_cast<char*>(m) + 16, 4);
    if (x.owner == me) { if (kind == 1) { x.count++; return; } end(11, "VIOLATION deadlock: relock"); }
    while ((*mtx)[m].owner >= 0) { th[me]->st = Mtx; th[me]->wait = m; block(true); }
    (*mtx)[m].owner = me;
    (*mtx)[m].count = 1;
}
void unlock(void* m)
{
    init_threads();
    M& x = (*mtx)[m];
    if (x.owner != me) end(10, "VIOLATION mutex-misuse");
    if (--x.count == 0) x.owner = -1;
}
int cwait(void* c, void* m, bool timed)
{
    point();
    R& r = rr();
    unlock(m);
    Th& t = *th[me];
    bool sp = false;
    if (r.spurious < r.spurious_max) {
        int x = next_sched("spurious");
        if (x == -2) sp = true;
        else if (x != -3 && x != -100) diverge("spurious");
    }
    if (sp) { r.spurious++; t.st = Mtx; t.wait = m; }
    else { t.st = timed ? CondT : Cond; t.wait = c; t.wait2 = m; }
    block(true);
    while ((*mtx)[m].owner >= 0) { t.st = Mtx; t.wait = m; block(true); }
    (*mtx)[m].owner = me;
    (*mtx)[m].count = 1;
    bool to = t.timed_out;
    t.timed_out = false;
    return to ? 110 : 0;
}
void* tramp(void* p)
{
    Th* t = static_cast<Th*>(p);
    while (sem_wait(&t->sem) != 0) {}
    for (int i = 0; i < nth; i++) if (th[i] == t) me = i;
    t->ret = t->fn(t->arg);
    t->st = Done;
    block(false);
    return nullptr;
}
void* track(void* p, size_t n) { if (p) { rr().live++; rr().objs[reinterpret_cast<uintptr_t>(p)] = n; } return p; }
void untrack(void* p) { if (p) { rr().live--; rr().objs.erase(reinterpret_cast<uintptr_t>(p)); } }
[[noreturn]] void vio(const char* m)
{
    std::string s = std::string("VIOLATION assertion: ") + m;
    end(10, s.c_str());
}
}
extern "C" {
void vf_entry();
void vfn_sched() { point(); }
void vfn_fill(void* p, uint64_t n)
{ // gives local variables the chosen initial content (the heap gets it from the address sanitiser)
    static const char* f = getenv("VF_FILL");
    if (f) memset(p, atoi(f), n);
}
int vfn_pthread_create(uint64_t* out, const void*, void* (*fn)(void*), void* arg)
{
    point();
    init_threads();
    Th* t = new Th;
    t->fn = fn;
    t->arg = arg;
    sem_init(&t->sem, 0, 0);
    int id = nth;
    th[nth++] = t;
    pthread_create(&t->p, nullptr, tramp, t);
    pthread_detach(t->p);
    if (out) *out = static_cast<uint64_t>(id) + 1;
    return 0;
}
int vfn_pthread_join(uint64_t id, void**)
{
    point();
    int j = static_cast<int>(id) - 1;
    if (j < 0 || j >= nth || j == me) end(10, "VIOLATION bad-join");
    if (th[j]->joined) end(10, "VIOLATION bad-join");
    while (th[j]->st != Done) { th[me]->st = Join; th[me]->jid = j; block(true); }
    th[j]->joined = true;
    return 0;
}
int vfn_pthread_detach(uint64_t) { return 0; }
uint64_t vfn_pthread_self() { return static_cast<uint64_t>(me) + 1; }
int vfn_pthread_equal(uint64_t a, uint64_t b) { return a == b; }
int vfn_sched_yield() { point(); return 0; }
int vfn_pthread_mutex_init(void*, const void*) { return 0; }
int vfn_pthread_mutex_destroy(void* m) { init_threads(); if ((*mtx)[m].owner >= 0) end(10, "VIOLATION mutex-misuse"); mtx->erase(m); return 0; }
int vfn_pthread_mutex_lock(void* m) { point(); lock(m); return 0; }
int vfn_pthread_mutex_trylock(void* m) { point(); init_threads(); if ((*mtx)[m].owner >= 0) return 16; lock(m); return 0; }
int vfn_pthread_mutex_unlock(void* m) { unlock(m); return 0; }
int vfn_pthread_cond_init(void*, const void*) { return 0; }
int vfn_pthread_cond_destroy(void* c)
{
    for (int i = 0; i < nth; i++) if ((th[i]->st == Cond || th[i]->st == CondT) && th[i]->wait == c) end(10, "VIOLATION cond-misuse");
    return 0;
}
int vfn_pthread_cond_wait(void* c, void* m) { return cwait(c, m, false); }
static void dl(const void* ts) { auto* p = static_cast<const uint64_t*>(ts); init_threads(); th[me]->deadline = p[0] * 1000000000ull + p[1]; }
int vfn_pthread_cond_timedwait(void* c, void* m, const void* ts) { dl(ts); return cwait(c, m, true); }
int vfn_pthread_cond_clockwait(void* c, void* m, int, const void* ts) { dl(ts); return cwait(c, m, true); }
int vfn_pthread_cond_broadcast(void* c)
{
    point();
    for (int i = 0; i < nth; i++) if ((th[i]->st == Cond || th[i]->st == CondT) && th[i]->wait == c) { th[i]->st = Mtx; th[i]->wait = th[i]->wait2; }
    return 0;
}
int vfn_pthread_cond_signal(void* c)
{
    point();
    std::vector<int> w;
    for (int i = 0; i < nth; i++) if ((th[i]->st == Cond || th[i]->st == CondT) && th[i]->wait == c) w.push_back(i);
    if (w.empty()) return 0;
    int t = w[0];
    if (w.size() > 1) { t = next_sched("signal"); if (t == -100) t = w[0]; if (t < 0 || t >= nth) diverge("signal"); }
    th[t]->st = Mtx;
    th[t]->wait = th[t]->wait2;
    return 0;
}
void* vfn_malloc(size_t n) { return track(malloc(n), n); }
void* vfn_calloc(size_t a, size_t b) { return track(calloc(a, b), a * b); }
void* vfn_realloc(void* p, size_t n) { untrack(p); return track(realloc(p, n), n); }
void vfn_free(void* p) { untrack(p); free(p); }
void* vfn_aligned_alloc(size_t a, size_t n) { return track(aligned_alloc(a, n), n); }
int vfn_posix_memalign(void** p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) track(*p, n); return r; }
void* vfn__Znwm(size_t n) { return track(::operator new(n), n); }
void* vfn__Znam(size_t n) { return track(::operator new[](n), n); }
void* vfn__ZnwmRKSt9nothrow_t(size_t n, const void*) { return track(::operator new(n, std::nothrow), n); }
void* vfn__ZnamRKSt9nothrow_t(size_t n, const void*) { return track(::operator new[](n, std::nothrow), n); }
void* vfn__ZnwmSt11align_val_t(size_t n, size_t a) { return track(::operator new(n, std::align_val_t(a)), n); }
void* vfn__ZnamSt11align_val_t(size_t n, size_t a) { return track(::operator new[](n, std::align_val_t(a)), n); }
void vfn__ZdlPv(void* p) { untrack(p); ::operator delete(p); }
void vfn__ZdaPv(void* p) { untrack(p); ::operator delete[](p); }
void vfn__ZdlPvm(void* p, size_t) { untrack(p); ::operator delete(p); }
void vfn__ZdaPvm(void* p, size_t) { untrack(p); ::operator delete[](p); }
void vfn__ZdlPvRKSt9nothrow_t(void* p, const void*) { untrack(p); ::operator delete(p); }
void vfn__ZdaPvRKSt9nothrow_t(void* p, const void*) { untrack(p); ::operator delete[](p); }
void vfn__ZdlPvSt11align_val_t(void* p, size_t a) { untrack(p); ::operator delete(p, std::align_val_t(a)); }
void vfn__ZdlPvmSt11align_val_t(void* p, size_t, size_t a) { untrack(p); ::operator delete(p, std::align_val_t(a)); }
void vfn__ZdaPvSt11align_val_t(void* p, size_t a) { untrack(p); ::operator delete[](p, std::align_val_t(a)); }
int vfn_rand() { return 4; }
[[noreturn]] static void finish()
{
    R& r = rr();
    if (r.has_exp && r.obs != r.exp) {
        for (size_t i = 0; i < r.obs.size() || i < r.exp.size(); i++) printf("obs %zu: native %s engine %s\n", i, i < r.obs.size() ? std::to_string(r.obs[i]).c_str() : "-", i < r.exp.size() ? std::to_string(r.exp[i]).c_str() : "-");
        end(5, "MISMATCH");
    }
    end(0, "COMPLETED");
}
[[noreturn]] void vfn_exit(int) { finish(); }
[[noreturn]] void vfn__exit(int) { finish(); }

static uint64_t input(const std::string& n)
{
    R& r = rr();
    if (r.inpos >= r.in.size()) diverge("more inputs than recorded: " + n);
    In& i = r.in[r.inpos++];
    std::string m = n;
    for (char& c : m) if (c == ' ') c = '_';
    if (i.n != m) diverge("input " + n + " but recorded " + i.n);
    return i.v;
}
uint64_t vf_sym(const char* n, unsigned) { return input(n); }
void vf_make_symbolic(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(p)[i] = static_cast<uint8_t>(input(std::string(nm) + "[" + std::to_string(i) + "]")); }
void vf_assume(bool c) { if (!c) diverge("assumption fails"); }
void vf_check(bool c, const char* m) { if (!c) vio(m); }
void vf_fail(const char* m) { vio(m); }
void vf_skip() { diverge("path abandoned"); }
uint64_t vf_choice(const char* n, uint64_t) { return input(n); }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_observe(uint64_t v) { rr().obs.push_back(v); }
void vf_reach(const char*) {}
uint64_t vf_param(const char* n, uint64_t d) { auto it = rr().par.find(n); return it == rr().par.end() ? d : it->second; }
uint64_t vf_live_heap() { return static_cast<uint64_t>(rr().live); }
bool vf_is_live(const void* p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    auto it = rr().objs.upper_bound(a);
    if (it == rr().objs.begin()) return false;
    --it;
    return a < it->first + it->second;
}
void vf_log(const char* m, uint64_t v) { printf("log: %s %llu\n", m, static_cast<unsigned long long>(v)); }
void vf_note(const char* m) { printf("note: %s\n", m); }
bool vf_norace(bool) { return false; }
void vf_yield() { point(); }
uint64_t vf_thread_id() { return static_cast<uint64_t>(me); }
bool vf_is_native() { return true; }
bool vf_is_concrete(uint64_t) { return true; }
int vf_refadd(int* p, int d) { int o = *p; *p += d; return o; }
uint64_t vf_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vf_clock() { return rr().clock; }
}
int main(int argc, char** argv)
{
    R& r = rr();
    r.live = 0;
    r.objs.clear();
    std::set_terminate([] { end(12, "VIOLATION terminate"); });
    FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
    if (!f) { fprintf(stderr, "usage: replay FILE\n"); return 2; }
    char k[16], nm[512];
    unsigned long long v;
    while (fscanf(f, "%15s", k) == 1) {
        if (k[0] == 'I') { if (fscanf(f, "%511s %llu", nm, &v) == 2) r.in.push_back({nm, v}); }
        else if (k[0] == 'P') { if (fscanf(f, "%511s %llu", nm, &v) == 2) r.par[nm] = v; }
        else if (k[0] == 'S') { int t; if (fscanf(f, "%d", &t) == 1) r.sched.push_back(t); }
        else if (k[0] == 'O') { if (fscanf(f, "%llu", &v) == 1) r.exp.push_back(v); r.has_exp = true; }
        else if (k[0] == 'E') r.has_exp = true;
        else if (k[0] == 'B') { if (fscanf(f, "%ld %ld", &r.preempt_max, &r.spurious_max) != 2) return 2; }
    }
    fclose(f);
    init_threads();
    vf_entry();
    finish();
}

// U02: file helpers, against a model of the operating system: a small tree with links, other file systems and siblings, in
// which any call may fail.
#include "common.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fts.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
#include <array>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <vf_streams.hpp>
#include <sse/schemes/utils/utils.hpp>
using namespace sse;
namespace os {
enum Kind { NONE, FILE_, DIR_, LINK, FIFO };
struct Node { char name[4]; int parent; Kind kind; int target; bool mount; bool alive; };
static Node n[16];
static int  cnt, cwd, faults_left, faults, opened, closed_bad;
static bool cwd_moved, other_call, reverse_order, late_allowed;
static int add(const char* name, int parent, Kind k, int target = -1)
{
    Node& x = n[cnt];
    strcpy(x.name, name);
    x.parent = parent; x.kind = k; x.target = target; x.mount = false; x.alive = k != NONE;
    return cnt++;
}
static bool below(int x, int a) { for (; x >= 0; x = n[x].parent) if (x == a) return true; return false; }
// the file system a node is on: that of the closest mount point at or above it
static int device(int x) { for (; x > 0; x = n[x].parent) if (n[x].mount) return x; return 0; }
static int child(int d, const char* s, size_t len)
{
    for (int i = 0; i < cnt; i++)
        if (n[i].alive && n[i].parent == d && strlen(n[i].name) == len && memcmp(n[i].name, s, len) == 0) return i;
    return -1;
}
static int find(const char* p, bool follow)
{ // index, or -1 with errno
    int cur = cwd;
    if (*p == '/') cur = 0;
    if (!*p) { errno = ENOENT; return -1; }
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        const char* q = p;
        while (*q && *q != '/') q++;
        size_t len = size_t(q - p);
        if (n[cur].kind != DIR_) { errno = ENOTDIR; return -1; }
        if (len == 1 && *p == '.') { p = q; continue; }
        if (len == 2 && p[0] == '.' && p[1] == '.') { if (cur) cur = n[cur].parent; p = q; continue; }
        int c = child(cur, p, len);
        if (c < 0) { errno = ENOENT; return -1; }
        if (n[c].kind == LINK && (*q || follow)) {
            c = n[c].target;
            if (c < 0 || !n[c].alive) { errno = ENOENT; return -1; }
        }
        cur = c;
        p = q;
    }
    return cur;
}
// any reason except "there is no such thing"
static int any_error()
{
    uint64_t e = vf::range("errno", 1, 133, 32);
    vf_assume((e != ENOENT) & (e != ENOTDIR));
    return int(e);
}
static bool fail(const char* what)
{
    if (faults_left == 0 || !vf_choice(what, 2)) return false;
    faults_left--;
    faults++;
    errno = any_error();
    return true;
}
static unsigned mode(int i)
{
    switch (n[i].kind) {
    case FILE_: return S_IFREG | 0644;
    case DIR_: return S_IFDIR | 0755;
    case LINK: return S_IFLNK | 0777;
    default: return S_IFIFO | 0644;
    }
}
static int do_stat(const char* p, struct stat* b, bool follow)
{
    if (fail("stat fails")) return -1;
    int i = find(p, follow);
    if (i < 0) return -1;
    memset(b, 0, sizeof *b);
    b->st_mode = mode(i);
    b->st_ino = i + 1;
    b->st_dev = device(i);
    return 0;
}
static int erase(const char* p, bool dirs, bool files)
{
    if (fail("remove fails")) return -1;
    int i = find(p, false);
    if (i < 0) return -1;
    if (n[i].kind == DIR_) {
        if (!dirs) { errno = EISDIR; return -1; }
        if (n[i].mount) { errno = EBUSY; return -1; }
        for (int c = 0; c < cnt; c++) if (n[c].alive && n[c].parent == i) { errno = ENOTEMPTY; return -1; }
    } else if (!files) { errno = ENOTDIR; return -1; }
    n[i].alive = false;
    return 0;
}
// directory traversal, after the contract of fts(3) and the behaviour of the C library
struct Level { int node; std::string path; std::vector<int> kids; size_t next; bool descended, failed; };
struct Walk { FTS f; int options; std::vector<Level> stack; std::vector<int> roots; std::vector<std::string> names; size_t next_root; FTSENT* last; bool pending; int dev; };
static Walk* walk(FTS* f) { return reinterpret_cast<Walk*>(f); }
static void drop(Walk* w)
{
    if (!w->last) return;
    free(w->last->fts_path);
    if (w->last->fts_accpath != w->last->fts_path) free(w->last->fts_accpath);
    free(w->last);
    w->last = nullptr;
}
static FTSENT* entry(Walk* w, int info, const std::string& path, int node, int level, int err)
{
    drop(w);
    FTSENT* e = static_cast<FTSENT*>(calloc(1, sizeof(FTSENT) + 16));
    e->fts_path = strdup(path.c_str());
    e->fts_accpath = e->fts_path;
    if (!(w->options & FTS_NOCHDIR) && node >= 0 && level > 0) e->fts_accpath = strdup(n[node].name);
    e->fts_pathlen = path.size();
    if (node >= 0) { strcpy(e->fts_name, n[node].name); e->fts_namelen = strlen(n[node].name); }
    e->fts_info = info;
    e->fts_errno = err;
    e->fts_level = level;
    w->last = e;
    return e;
}
static void chdir_to(Walk* w, int node)
{
    if (w->options & FTS_NOCHDIR) return;
    cwd = node;
    cwd_moved = true;
}
} // namespace os
extern "C" {
int stat(const char* p, struct stat* b) { return os::do_stat(p, b, true); }
int lstat(const char* p, struct stat* b) { return os::do_stat(p, b, false); }
int access(const char* p, int) { struct stat b; return os::do_stat(p, &b, true); }
int remove(const char* p) { return os::erase(p, true, true); }
int unlink(const char* p) { return os::erase(p, false, true); }
int rmdir(const char* p) { return os::erase(p, true, false); }
FTS* fts_open(char* const* argv, int options, int (*cmp)(const FTSENT**, const FTSENT**))
{
    (void)cmp;
    bool l = options & FTS_LOGICAL, p = options & FTS_PHYSICAL;
    if (l == p) { errno = EINVAL; return nullptr; }
    if (os::fail("fts_open fails")) return nullptr;
    auto* w = new os::Walk();
    w->options = options;
    w->next_root = 0;
    w->last = nullptr;
    w->pending = false;
    w->dev = -1;
    for (; *argv; argv++) { w->names.emplace_back(*argv); }
    if (l) w->options |= FTS_NOCHDIR;
    os::opened++;
    return &w->f;
}
FTSENT* fts_read(FTS* f)
{
    using namespace os;
    auto* w = walk(f);
    bool logical = w->options & FTS_LOGICAL;
    for (;;) {
        if (w->pending) { // the entry that was returned last is a directory in pre-order: read it
            w->pending = false;
            Level& l = w->stack.back();
            bool cross = (w->options & FTS_XDEV) && device(l.node) != w->dev;
            if (!cross) {
                if (faults_left) switch (vf_choice("reading the directory", 3)) {
                    case 1: faults_left--; faults++; drop(w); errno = any_error(); return nullptr;
                    case 2: {
                        faults_left--; faults++;
                        std::string path = l.path;
                        int node = l.node, lev = int(w->stack.size()) - 1;
                        w->stack.pop_back();
                        return entry(w, FTS_DNR, path, node, lev, any_error());
                    }
                    default: break;
                }
                for (int i = 0; i < cnt; i++) if (n[i].alive && n[i].parent == l.node) l.kids.push_back(i);
                if (reverse_order) { std::vector<int> k; for (size_t i = l.kids.size(); i-- > 0;) k.push_back(l.kids[i]); l.kids = k; }
                if (late_allowed && vf_choice("another process adds an entry", 2)) { late_allowed = false; faults++; add("new", l.node, FILE_); }
                chdir_to(w, l.node);
            }
        }
        int node;
        std::string path;
        bool have_child = false, root = false;
        if (w->stack.empty()) {
            if (w->next_root == w->names.size()) { drop(w); errno = 0; return nullptr; }
            path = w->names[w->next_root++];
            root = true;
            node = find(path.c_str(), logical || (w->options & FTS_COMFOLLOW));
            if (node < 0 && logical) node = find(path.c_str(), false);
            if (node < 0) return entry(w, FTS_NS, path, -1, 0, ENOENT);
            w->dev = device(node);
            have_child = true;
        } else {
            Level& l = w->stack.back();
            if (l.next < l.kids.size()) { node = l.kids[l.next++]; path = l.path + "/" + n[node].name; have_child = true; }
            else node = l.node;
        }
        int level = int(w->stack.size());
        if (!have_child) { // post-order
            std::string p = w->stack.back().path;
            w->stack.pop_back();
            if (!w->stack.empty()) chdir_to(w, w->stack.back().node); else if (!(w->options & FTS_NOCHDIR)) cwd = 1;
            if (fail("reading on fails")) return entry(w, FTS_ERR, p, node, level - 1, any_error());
            return entry(w, FTS_DP, p, node, level - 1, 0);
        }
        if (!root && fail("examining an entry fails")) return entry(w, FTS_NS, path, node, level, any_error());
        int seen = node;
        if (n[node].kind == LINK && (logical || (root && (w->options & FTS_COMFOLLOW)))) {
            seen = n[node].target;
            if (seen < 0 || !n[seen].alive) return entry(w, FTS_SLNONE, path, node, level, 0);
        }
        if (n[seen].kind == DIR_) {
            for (auto& l : w->stack) if (l.node == seen) return entry(w, FTS_DC, path, node, level, 0);
            w->stack.push_back(Level{seen, path, {}, 0, false, false});
            w->pending = true;
            return entry(w, FTS_D, path, node, level, 0);
        }
        return entry(w, n[seen].kind == FILE_ ? FTS_F : n[seen].kind == LINK ? FTS_SL : FTS_DEFAULT, path, node, level, 0);
    }
}
int fts_close(FTS* f)
{
    auto* w = os::walk(f);
    os::drop(w);
    if (!(w->options & FTS_NOCHDIR)) os::cwd = 1;
    delete w;
    os::opened--;
    return 0;
}
}
static int dir_given, outside_file, outside_dir, outside_inner;
// a node of one of the kinds; links lead outside
static int any_node(const char* what, const char* name, int parent, bool missing)
{
    using namespace os;
    switch (vf_choice(what, missing ? 7 : 6)) {
    case 0: return add(name, parent, DIR_);
    case 1: return add(name, parent, FILE_);
    case 2: return add(name, parent, LINK, outside_file);
    case 3: return add(name, parent, LINK, outside_dir);
    case 4: return add(name, parent, LINK, -1);
    case 5: return add(name, parent, FIFO);
    default: return add(name, parent, NONE);
    }
}
static void base()
{
    using namespace os;
    cnt = 0; faults = opened = 0; cwd = 1; cwd_moved = false; faults_left = 0; late_allowed = false; reverse_order = false;
    int root = add("", -1, DIR_);
    int w = add("w", root, DIR_);
    outside_file = add("o", w, FILE_);
    outside_dir = add("od", w, DIR_);
    outside_inner = add("g", outside_dir, FILE_);
    int twin = add("pq", w, DIR_);
    add("a", twin, FILE_);
}
static void removing()
{
    using namespace os;
    base();
    int fixed = cnt;
    int p = any_node("the path", "p", 1, true);
    int below_from = cnt, a = -1, b = -1, c = -1;
    if (n[p].kind == DIR_) {
        a = any_node("first entry", "a", p, true);
        if (n[a].kind == DIR_) {
            c = any_node("entry of the entry", "c", a, true);
            if (n[c].kind == DIR_) add("d", c, FILE_);
        }
        if (vf_param("entries", 2) > 1) b = any_node("second entry", "b", p, true);
        if (b >= 0 && n[b].kind == DIR_ && vf_param("entries", 2) > 2) any_node("entry of the second", "e", b, true);
    }
    int mount = -1;
    if (a >= 0 && n[a].kind == DIR_ && vf_param("mount", 0) && vf_choice("mount point", 2)) { mount = a; n[a].mount = true; }
    reverse_order = vf_choice("order of the entries", 2);
    bool before[16];
    for (int i = 0; i < cnt; i++) before[i] = n[i].alive;
    static const char* const spellings[] = {"/w/p", "p", "/w/p/", "./p"};
    std::string path = spellings[vf_choice("spelling of the path", vf_param("spellings", 2))];
    bool link = n[p].kind == LINK;
    if (link && path.back() == '/') vf_skip(); // (names the target)
    uint64_t heap = vf_live_heap();
    faults_left = int(vf_param("faults", 0));
    late_allowed = vf_param("late", 0);
    int made = cnt;
    bool done = false, threw = false;
    try { done = utility::remove_directory(path); }
    catch (std::exception&) { threw = true; }
    CHECK(opened == 0, "the traversal is closed on every path");
    CHECK(vf_live_heap() == heap || cnt != made, "nothing is leaked");
    CHECK(!cwd_moved && cwd == 1, "the working directory is never changed");
    for (int i = 0; i < fixed; i++) CHECK(n[i].alive, "nothing outside of the directory is removed");
    if (mount >= 0) for (int i = below_from; i < made; i++) if (i != mount && below(i, mount)) CHECK(n[i].alive == before[i], "other file systems are left alone");
    if (done) {
        for (int i = p; i < cnt; i++) CHECK(!n[i].alive, "success is reported only when everything is gone");
        REACH("removed");
    } else {
        CHECK(faults > 0 || mount >= 0, "the directory is removed when nothing fails");
        REACH(threw ? "reported" : "refused");
    }
    if (mount >= 0) REACH("mount");
}
// the other helpers: one call each, with every result
namespace one { static int calls, open_flags, open_mode, result, err, closes; static std::string path; static uint64_t value; static unsigned mkmode; }
extern "C" {
int mkdir(const char* p, mode_t m) { one::calls++; one::path = p; one::mkmode = m; if (one::result) errno = one::err; return one::result; }
// (the variable argument is passed like a fixed one)
int model_open(const char* p, int flags, int mode) asm("open");
int model_open(const char* p, int flags, int mode)
{
    one::open_mode = (flags & O_CREAT) ? mode : 0;
    one::calls++; one::path = p; one::open_flags = flags;
    if (one::result) { errno = one::err; return -1; }
    return int(one::value);
}
int close(int) { one::closes++; return 0; }
int fstat(int, struct stat* b)
{
    one::calls++;
    if (one::result) { errno = one::err; return -1; }
    memset(b, 0, sizeof *b);
    b->st_size = off_t(one::value);
    return 0;
}
static int vfs(struct statvfs* b)
{
    one::calls++;
    if (one::result) { errno = one::err; return -1; }
    memset(b, 0, sizeof *b);
    b->f_bsize = one::value;
    b->f_frsize = one::value ^ 1;
    return 0;
}
int fstatvfs(int, struct statvfs* b) { return vfs(b); }
int statvfs(const char* p, struct statvfs* b) { one::path = p; return vfs(b); }
long sysconf(int k) { return k == _SC_PAGE_SIZE ? long(one::value) : -1; }
int getpagesize() { return int(one::value); }
}
static void helpers()
{
    using namespace os;
    one::calls = one::closes = 0;
    one::result = vf_choice("the call fails", 2) ? -1 : 0;
    one::err = int(vf::range("reason", 1, 133, 32));
    switch (vf_choice("helper", 7)) {
    case 0: {
        unsigned m = unsigned(vf_sym("mode", 12));
        bool ok = utility::create_directory("/w/x", m);
        CHECK(ok == (one::result == 0), "creating a directory reports the result of the system");
        CHECK(one::calls == 1 && one::path == "/w/x" && one::mkmode == m, "exactly the given directory is created, with the given mode");
        break;
    }
    case 1: {
        bool direct = vf_choice("direct", 2);
        one::value = vf_sym("fd", 31);
        int  r = -2;
        bool threw = throws<std::runtime_error>([&] { r = utility::open_fd("/w/x", direct); }, "a failure to open is a runtime error");
        CHECK(threw == (one::result != 0), "opening fails exactly when the system reports a failure");
        CHECK(one::path == "/w/x" && (one::calls == 1 || threw), "exactly the given file is opened, once");
        CHECK((one::open_flags & (O_CREAT | O_ACCMODE | O_TRUNC | O_EXCL | O_APPEND)) == (O_CREAT | O_RDWR), "opened for reading and writing, created if missing, existing contents kept");
        CHECK(bool(one::open_flags & O_DIRECT) == direct, "direct access exactly when asked for");
        CHECK((one::open_mode & 0600) == 0600 && !(one::open_mode & 07133), "the file is accessible to its owner, not writable by others, not executable");
        CHECK(one::closes == 0, "the descriptor is handed to the caller");
        if (!threw) CHECK(uint64_t(r) == one::value, "the descriptor of the system is returned");
        break;
    }
    case 2: {
        one::value = vf_sym("size", 63);
        ssize_t r = -1;
        bool threw = throws<std::runtime_error>([&] { r = utility::file_size(7); }, "a failure to get the size is a runtime error");
        CHECK(threw == (one::result != 0), "the size fails exactly when the system reports a failure");
        if (!threw) CHECK(uint64_t(r) == one::value, "the size of the system is returned");
        break;
    }
    case 3: {
        one::value = vf_sym("block", 63);
        size_t r = 0;
        bool threw = throws_any([&] { r = utility::device_page_size(7); });
        if (one::result) CHECK(threw || r == 0, "an unknown block size is reported as such");
        else CHECK(!threw && r == one::value, "the block size of the system is returned");
        break;
    }
    case 4: {
        base();
        bool exists = vf_choice("exists", 2);
        if (exists) any_node("kind", "p", 1, false);
        exists = find("/w/p", true) >= 0;
        one::value = vf_sym("block", 63);
        size_t r = 0;
        bool threw = throws_any([&] { r = utility::device_page_size("/w/p"); });
        if (one::result || !exists) CHECK(threw || r == 0, "an unknown block size is reported as such");
        else CHECK(!threw && r == one::value && one::path == "/w/p", "the block size of the system is returned");
        break;
    }
    case 5: {
        one::value = vf_sym("page", 30);
        CHECK(utility::os_page_size() == one::value, "the page size of the system is returned");
        break;
    }
    default: {
        base();
        int p = any_node("kind", "p", 1, true);
        faults_left = 1;
        uint64_t which = vf_choice("query", 4);
        int      i = find("/w/p", true);
        bool     r;
        if (which == 3) {
            bool was = n[p].alive, dir = n[p].kind == DIR_;
            r = utility::remove_file("/w/p");
            CHECK(n[p].alive == (was && !r), "the file is gone exactly when removing it was reported to succeed");
            CHECK(r == (was && !dir && !faults), "removing a file succeeds exactly when the system removed it");
            for (int k = 0; k < p; k++) CHECK(n[k].alive, "nothing else is removed");
        } else {
            r = which == 0 ? utility::exists("/w/p") : which == 1 ? utility::is_file("/w/p") : utility::is_directory("/w/p");
            bool e = i >= 0 && !faults;
            CHECK(r == (which == 0 ? e : e && n[i].kind == (which == 1 ? FILE_ : DIR_)), "existence and kind are those of the system");
            for (int k = 0; k < cnt; k++) CHECK(n[k].alive == (n[k].kind != NONE), "a query changes nothing");
        }
        REACH("query");
    }
    }
    REACH("helper");
}
extern "C" void vf_entry()
{
    if (vf_param("helpers", 0)) helpers();
    else removing();
}

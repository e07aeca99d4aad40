// Model of the POSIX file interface used by /repo, over the same in-memory tree as the stream model.
// Contract: pread/pwrite/read/write transfer the bytes at the given (or the descriptor's own) position, extend the file with
// zeros when writing past its end, and return short at the end of file; descriptors opened with O_DIRECT require buffer,
// length and offset alignment; every call may be made to fail or to transfer less by the harness's hook.
#pragma once
#include "common.hpp"
#include <vf_streams.hpp>
#include <cerrno>
#include <fcntl.h>
#include <fts.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <unistd.h>
namespace fs {
enum Op { OPEN, CLOSE, READ, WRITE, PREAD, PWRITE, TRUNCATE, FSYNC, FSTAT, STATVFS, UNLINK, REMOVE, MKDIR, FTSOPEN };
constexpr long long NOFAULT = -2;
struct Fd { bool used = false; std::string* ino = nullptr; std::string path; size_t pos = 0; int flags = 0; };
struct State {
    Fd       fd[24];
    long long (*hook)(Op, int fd, size_t len) = nullptr;
    size_t   direct_align = 1; // required alignment under O_DIRECT
    size_t   block = 16;       // f_bsize
    size_t   page = 16;        // sysconf(_SC_PAGE_SIZE)
    unsigned bad_close = 0;    // close() of a descriptor that is not open (0-2 included)
    unsigned misaligned = 0;   // transfers rejected under O_DIRECT
    unsigned transfers = 0;
    bool (*extra_dir)(const std::string&) = nullptr; // directories the harness knows of (databases)
    bool (*extra_rm)(const std::string&) = nullptr;  // remove one of them
    std::map<std::string, char> nodes; // directories 'd', symbolic links 'l', others 'o'
};
inline State& st() { static State* s = new State; return *s; }
struct NoRace { bool o = vf_norace(true); ~NoRace() { vf_norace(o); } };
inline long long fault(Op o, int fd, size_t n) { return st().hook ? st().hook(o, fd, n) : NOFAULT; }
inline bool fails(Op o, int fd = -1) { if (fault(o, fd, 0) == NOFAULT) return false; errno = EIO; return true; }
inline Fd* get(int fd)
{
    if (fd < 3 || fd - 3 >= 24 || !st().fd[fd - 3].used) { errno = EBADF; return nullptr; }
    return &st().fd[fd - 3];
}
inline unsigned open_count() { unsigned n = 0; for (auto& f : st().fd) n += f.used; return n; }
inline std::string* file(const std::string& p) { auto& m = vf::stream_fs().files; auto i = m.find(p); return i == m.end() ? nullptr : i->second.get(); }
inline std::string& create(const std::string& p) { auto& m = vf::stream_fs().files[p]; if (!m) m = std::make_shared<std::string>(); return *m; }
inline bool dir(const std::string& p) { auto i = st().nodes.find(p); return i != st().nodes.end() && i->second == 'd'; }
inline ssize_t transfer(Op op, int d, void* buf, size_t n, size_t off)
{ // caller holds NoRace
    Fd* f = get(d);
    if (!f) return -1;
    st().transfers++;
    long long h = fault(op, d, n);
    if (h == -1) { errno = EIO; return -1; }
    size_t a = st().direct_align;
    if ((f->flags & O_DIRECT) && (reinterpret_cast<uintptr_t>(buf) % a || n % a || off % a)) { st().misaligned++; errno = EINVAL; return -1; }
    if (h >= 0 && static_cast<size_t>(h) < n) n = static_cast<size_t>(h);
    std::string& s = *f->ino;
    if (op == READ || op == PREAD) {
        if (off >= s.size()) return 0;
        if (n > s.size() - off) n = s.size() - off;
        if (n) { vf_norace(false); memcpy(buf, s.data() + off, n); vf_norace(true); }
    } else if (n) {
        if (off + n > s.size()) s.resize(off + n, '\0');
        vf_norace(false); memcpy(&s[off], buf, n); vf_norace(true);
    }
    return static_cast<ssize_t>(n);
}
inline int do_stat(const std::string& p, struct stat* b)
{
    memset(b, 0, sizeof *b);
    if (std::string* f = file(p)) { b->st_mode = S_IFREG | 0644; b->st_size = static_cast<off_t>(f->size()); return 0; }
    auto i = st().nodes.find(p);
    if (i != st().nodes.end()) { b->st_mode = i->second == 'd' ? S_IFDIR | 0755 : i->second == 'l' ? S_IFLNK | 0777 : S_IFIFO | 0644; return 0; }
    if (st().extra_dir && st().extra_dir(p)) { b->st_mode = S_IFDIR | 0755; return 0; }
    errno = ENOENT;
    return -1;
}
inline int do_remove(const std::string& p)
{
    auto& m = vf::stream_fs().files;
    auto i = m.find(p);
    if (i != m.end()) { new std::shared_ptr<std::string>(i->second); m.erase(i); return 0; } // (open descriptors keep the inode)
    if (st().extra_rm && st().extra_rm(p)) return 0;
    auto n = st().nodes.find(p);
    if (n == st().nodes.end()) { errno = ENOENT; return -1; }
    if (n->second == 'd') {
        std::string pre = p + "/";
        for (auto& x : m) if (x.first.compare(0, pre.size(), pre) == 0) { errno = ENOTEMPTY; return -1; }
        for (auto& x : st().nodes) if (x.first.compare(0, pre.size(), pre) == 0) { errno = ENOTEMPTY; return -1; }
    }
    st().nodes.erase(n);
    return 0;
}
} // namespace fs
extern "C" {
int open(const char* p, int flags, ...)
{
    fs::NoRace nr;
    if (fs::fails(fs::OPEN)) return -1;
    if (!*p) { errno = ENOENT; return -1; }
    if (fs::dir(p)) { errno = EISDIR; return -1; }
    std::string* f = fs::file(p);
    if (!f) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        f = &fs::create(p);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) f->clear();
    for (int i = 0; i < 24; i++)
        if (!fs::st().fd[i].used) { auto& d = fs::st().fd[i]; d.used = true; d.ino = f; d.path = p; d.pos = 0; d.flags = flags; return i + 3; }
    errno = EMFILE;
    return -1;
}
int close(int d)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f) { fs::st().bad_close++; return -1; }
    f->used = false;
    return 0;
}
ssize_t pread(int d, void* b, size_t n, off_t o) { fs::NoRace nr; return fs::transfer(fs::PREAD, d, b, n, static_cast<size_t>(o)); }
ssize_t pwrite(int d, const void* b, size_t n, off_t o) { fs::NoRace nr; return fs::transfer(fs::PWRITE, d, const_cast<void*>(b), n, static_cast<size_t>(o)); }
ssize_t read(int d, void* b, size_t n)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f) return -1;
    ssize_t r = fs::transfer(fs::READ, d, b, n, f->pos);
    if (r > 0) f->pos += static_cast<size_t>(r);
    return r;
}
ssize_t write(int d, const void* b, size_t n)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f) return -1;
    ssize_t r = fs::transfer(fs::WRITE, d, const_cast<void*>(b), n, f->pos);
    if (r > 0) f->pos += static_cast<size_t>(r);
    return r;
}
off_t lseek(int d, off_t o, int wh)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f) return -1;
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<off_t>(f->pos) : static_cast<off_t>(f->ino->size());
    f->pos = static_cast<size_t>(base + o);
    return base + o;
}
int ftruncate(int d, off_t n)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f || fs::fails(fs::TRUNCATE, d)) return -1;
    f->ino->resize(static_cast<size_t>(n), '\0');
    return 0;
}
int fsync(int d) { fs::NoRace nr; return !fs::get(d) || fs::fails(fs::FSYNC, d) ? -1 : 0; }
int fdatasync(int d) { return fsync(d); }
int fstat(int d, struct stat* b)
{
    fs::NoRace nr;
    fs::Fd* f = fs::get(d);
    if (!f || fs::fails(fs::FSTAT, d)) return -1;
    memset(b, 0, sizeof *b);
    b->st_mode = S_IFREG | 0644;
    b->st_size = static_cast<off_t>(f->ino->size());
    return 0;
}
int stat(const char* p, struct stat* b) { fs::NoRace nr; return fs::do_stat(p, b); }
int lstat(const char* p, struct stat* b) { fs::NoRace nr; return fs::do_stat(p, b); }
int access(const char* p, int) { struct stat b; return stat(p, &b); }
int fstatvfs(int d, struct statvfs* b)
{
    fs::NoRace nr;
    if (!fs::get(d) || fs::fails(fs::STATVFS, d)) return -1;
    memset(b, 0, sizeof *b);
    b->f_bsize = b->f_frsize = fs::st().block;
    return 0;
}
int statvfs(const char* p, struct statvfs* b)
{
    fs::NoRace nr;
    struct stat x;
    if (fs::do_stat(p, &x) || fs::fails(fs::STATVFS)) return -1;
    memset(b, 0, sizeof *b);
    b->f_bsize = b->f_frsize = fs::st().block;
    return 0;
}
long sysconf(int) { return static_cast<long>(fs::st().page); }
int getpagesize() { return static_cast<int>(fs::st().page); }
int unlink(const char* p)
{
    fs::NoRace nr;
    if (fs::fails(fs::UNLINK)) return -1;
    if (fs::dir(p)) { errno = EISDIR; return -1; }
    return fs::do_remove(p);
}
int remove(const char* p) { fs::NoRace nr; return fs::fails(fs::REMOVE) ? -1 : fs::do_remove(p); }
int rmdir(const char* p) { fs::NoRace nr; return fs::fails(fs::REMOVE) ? -1 : fs::do_remove(p); }
int mkdir(const char* p, mode_t)
{
    fs::NoRace nr;
    if (fs::fails(fs::MKDIR)) return -1;
    struct stat b;
    if (fs::do_stat(p, &b) == 0) { errno = EEXIST; return -1; }
    fs::st().nodes[p] = 'd';
    return 0;
}
}

// The simulated disk and the interposed file functions.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simfs.h"
#include "rt.h"
#include "rt_internal.h"

#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace simfs {

using namespace sim;

struct Node {
    std::string data, whole;
    bool directory = false;
    int error = 0;
    bool was_truncated = false;
    std::vector<std::pair<uint64_t, uint64_t>> bad;
    uint64_t ino = 0;
};
struct Handle {
    std::shared_ptr<Node> node;
    std::string path;
    uint64_t pos = 0;
    FILE* file = nullptr;
    int fd = -1;
};
struct Disk {
    std::map<std::string, std::shared_ptr<Node>> nodes;
    std::map<int, Handle> handles;
    std::map<FILE*, int> files;
    int next_fd = 1 << 20;
    uint64_t calls = 0, reads = 0, bytes = 0, failed = 0, next_ino = 100;
    std::vector<Hole> holes;
    std::string current;                       // The path that the running operation is about.
    std::map<std::string, uint64_t> errors, interrupts;    // Operations that failed so, per path.
    std::set<std::string> spared;
};
static Disk& disk() { static Disk* d = new Disk; return *d; }
static bool any = false;      // Nothing to look up before the first reset().

static constexpr int FD0 = 1 << 20;
static bool ours(char const* p) { return any && p && !strncmp(p, PREFIX, 9); }
static bool ours(int fd) { return any && fd >= FD0; }
static std::string norm(char const* p) {
    std::string s(p), o;
    for(char c : s) if(c != '/' || o.empty() || o.back() != '/') o += c;
    while(o.size() > 9 && o.back() == '/') o.pop_back();
    return o;
}

void reset() {
    Suspend q;
    Disk& d = disk();
    any = true;
    std::vector<FILE*> fs;
    for(auto& f : d.files) fs.push_back(f.first);
    for(FILE* f : fs) fclose(f);
    d.nodes.clear(); d.handles.clear(); d.files.clear(); d.holes.clear();
    d.current.clear(); d.errors.clear(); d.interrupts.clear(); d.spared.clear();
    d.next_fd = FD0; d.calls = d.reads = d.bytes = d.failed = 0; d.next_ino = 100;
}
void put(std::string const& path, std::string const& bytes) {
    Suspend q;
    auto n = std::make_shared<Node>();
    n->data = bytes; n->whole = bytes; n->ino = disk().next_ino++;
    disk().nodes[path] = n;
}
void make_directory(std::string const& path) {
    Suspend q;
    auto n = std::make_shared<Node>();
    n->directory = true; n->ino = disk().next_ino++;
    disk().nodes[path] = n;
}
void forbid(std::string const& path, int error) {
    Suspend q;
    auto n = std::make_shared<Node>();
    n->error = error;
    disk().nodes[path] = n;
}
void remove(std::string const& path) { Suspend q; disk().nodes.erase(path); }
void heal() {
    Suspend q;
    for(auto& n : disk().nodes) { n.second->data = n.second->whole; n.second->bad.clear(); n.second->was_truncated = false; }
}
int open_handles() { return int(disk().handles.size()); }
std::string open_names() {
    std::string s;
    for(auto& h : disk().handles) s += (s.empty() ? "" : ", ") + h.second.path;
    return s;
}
std::vector<Hole> const& holes() { return disk().holes; }
uint64_t calls() { return disk().calls; }
uint64_t reads() { return disk().reads; }
uint64_t bytes_read() { return disk().bytes; }
uint64_t failed() { return disk().failed; }
uint64_t errors(std::string const& path) {
    auto it = disk().errors.find(path);
    return it == disk().errors.end() ? 0 : it->second;
}
uint64_t interrupts(std::string const& path) {
    auto it = disk().interrupts.find(path);
    return it == disk().interrupts.end() ? 0 : it->second;
}
void spare(std::string const& path) { Suspend q; disk().spared.insert(path); }
bool truncated(std::string const& path, uint64_t* size) {
    auto it = disk().nodes.find(path);
    if(it == disk().nodes.end() || !it->second->was_truncated) return false;
    *size = it->second->data.size();
    return true;
}

// ---- the operations ----------------------------------------------------------------
enum Op { OP_OPEN = 200, OP_READ, OP_SEEK, OP_STAT, OP_CLOSE, OP_LOCK };

static bool ask(Fault kind, int64_t range, int64_t* arg) {
    Disk& d = disk();
    if(!d.spared.empty() && d.spared.count(d.current)) return false;
    bool f;
    { Resume r; f = fault(kind, range, arg); }
    if(f && kind == F_IO_ERROR) ++d.errors[d.current];
    if(f && kind == F_IO_EINTR) ++d.interrupts[d.current];
    Resume r;
    if(f && kind != F_IO_DELAY) { ++disk().failed; io_point(220 + kind); }
    return f;
}
static void point(int op, uint64_t what) {
    ++disk().calls;
    static bool const show = getenv("SIMFS_LOG") != nullptr;
    if(show) fprintf(stderr, "op %d %llu\n", op, (unsigned long long)what);
    Resume r;
    if(!io_active()) return;
    io_point(op);
    event(what);
    int64_t a;
    if(fault(F_IO_DELAY, 23, &a)) sleep_ns(int64_t(1000) << a);   // 1 us to 4 s
}
static std::shared_ptr<Node> find(std::string const& path) {
    auto it = disk().nodes.find(path);
    return it == disk().nodes.end() ? nullptr : it->second;
}

static int do_open(char const* name, bool write) {     // -> fd or -1
    std::string path = norm(name);
    disk().current = path;
    point(OP_OPEN, path.size());
    auto n = find(path);
    int64_t a = 0;
    if(path.size() > PATH_MAX - 1 || path.substr(path.rfind('/') + 1).size() > NAME_MAX) { errno = ENAMETOOLONG; return -1; }
    if(!n && path == "/simdisk") { errno = EISDIR; return -1; }
    if(!n) { errno = write ? EROFS : ENOENT; return -1; }
    if(n->error) { errno = n->error; return -1; }
    if(write) { errno = n->directory ? EISDIR : EROFS; return -1; }
    if(ask(F_IO_ERROR, 6, &a)) {
        static int const es[] = {EIO, EACCES, EMFILE, ENFILE, ENOMEM, EINTR};
        errno = es[a];
        return -1;
    }
    if(!n->directory && ask(F_IO_EOF, int64_t(n->data.size()) + 1, &a)) {
        if(uint64_t(a) < n->data.size()) { n->data.resize(size_t(a)); n->was_truncated = true; }
    }
    Handle h;
    h.node = n; h.path = path; h.fd = disk().next_fd++;
    int fd = h.fd;
    disk().handles[fd] = h;
    return fd;
}
static ssize_t do_read(Handle& h, void* buf, size_t size, uint64_t pos) {
    disk().current = h.path;
    point(OP_READ, pos * 31 + size);
    ++disk().reads;
    if(h.node->directory) { errno = EISDIR; return -1; }
    std::string const& d = h.node->data;
    size_t n = pos >= d.size() ? 0 : std::min(size, d.size() - size_t(pos));
    int64_t a = 0;
    for(auto& b : h.node->bad)
        if(pos < b.second && pos + n > b.first) {
            if(pos < b.first) { n = size_t(b.first - pos); break; }
            ++disk().failed;
            ++disk().errors[h.path];
            errno = EIO;
            return -1;
        }
    if(ask(F_IO_EINTR, 0, nullptr)) { errno = EINTR; return -1; }
    if(ask(F_IO_ERROR, 4, &a)) {
        if(a == 0 && n > 0) {           // A bad sector that stays bad.
            uint64_t lo = pos / 512 * 512;
            h.node->bad.emplace_back(lo, lo + 512);
        }
        errno = EIO;
        return -1;
    }
    if(n > 1 && ask(F_IO_SHORT, 1 << 20, &a)) {
        size_t const got = 1 + size_t(a) % (n - 1);
        disk().holes.push_back({h.path, pos + got, pos + n});
        n = got;
    }
    memcpy(buf, d.data() + pos, n);
    disk().bytes += n;
    return ssize_t(n);
}
static int64_t do_seek(Handle& h, int64_t off, int whence) {
    disk().current = h.path;
    point(OP_SEEK, uint64_t(off) * 3 + uint64_t(whence));
    int64_t to = whence == SEEK_SET ? off : whence == SEEK_CUR ? int64_t(h.pos) + off : int64_t(h.node->data.size()) + off;
    if(whence != SEEK_SET && whence != SEEK_CUR && whence != SEEK_END) { errno = EINVAL; return -1; }
    if(to < 0) { errno = EINVAL; return -1; }
    // Only finding the end needs the device.
    if(whence == SEEK_END && ask(F_IO_ERROR, 0, nullptr)) { errno = EIO; return -1; }
    h.pos = uint64_t(to);
    return to;
}
static void fill_stat(Node const& n, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_mode = n.directory ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_nlink = 1;
    st->st_dev = 77;
    st->st_ino = n.ino;
    st->st_size = off_t(n.data.size());
    st->st_blksize = 4096;
    st->st_blocks = off_t((n.data.size() + 511) / 512);
}
static int do_stat(char const* name, struct stat* st) {
    std::string path = norm(name);
    disk().current = path;
    point(OP_STAT, path.size());
    if(path.size() > PATH_MAX - 1 || path.substr(path.rfind('/') + 1).size() > NAME_MAX) { errno = ENAMETOOLONG; return -1; }
    auto n = find(path);
    if(!n && path + "/" == PREFIX) { Node root; root.directory = true; root.ino = 1; fill_stat(root, st); return 0; }
    if(!n) {
        // A file used as a directory.
        size_t p = path.size();
        while((p = path.rfind('/', p - 1)) != std::string::npos && p > 8) {
            auto m = find(path.substr(0, p));
            if(m && !m->directory) { errno = ENOTDIR; return -1; }
        }
        errno = ENOENT;
        return -1;
    }
    if(n->error) { errno = n->error; return -1; }
    int64_t a;
    if(ask(F_IO_ERROR, 4, &a)) { static int const es[] = {EIO, EACCES, ENOMEM, EIO}; errno = es[a]; return -1; }
    fill_stat(*n, st);
    return 0;
}
static int do_close(int fd) {
    point(OP_CLOSE, 0);
    auto it = disk().handles.find(fd);
    if(it == disk().handles.end()) { errno = EBADF; return -1; }
    disk().current = it->second.path;
    disk().handles.erase(it);
    if(ask(F_IO_ERROR, 0, nullptr)) { errno = EIO; return -1; }
    return 0;
}
static Handle* handle(int fd) {
    auto it = disk().handles.find(fd);
    return it == disk().handles.end() ? nullptr : &it->second;
}

// ---- streams ------------------------------------------------------------------------
static ssize_t ck_read(void* c, char* buf, size_t n) {
    Suspend q;
    Handle* h = handle(int(intptr_t(c)));
    if(!h) { errno = EBADF; return -1; }
    ssize_t r = do_read(*h, buf, n, h->pos);
    if(r > 0) h->pos += uint64_t(r);
    return r;
}
static ssize_t ck_write(void*, char const*, size_t) { errno = EBADF; return 0; }
static int ck_seek(void* c, off64_t* off, int whence) {
    Suspend q;
    Handle* h = handle(int(intptr_t(c)));
    if(!h) { errno = EBADF; return -1; }
    int64_t r = do_seek(*h, *off, whence);
    if(r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void* c) {
    Suspend q;
    int fd = int(intptr_t(c));
    Handle* h = handle(fd);
    if(h && h->file) disk().files.erase(h->file);
    return do_close(fd);
}
static FILE* stream_of(int fd) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(reinterpret_cast<void*>(intptr_t(fd)), "r", io);
    if(f) { Handle* h = handle(fd); h->file = f; disk().files[f] = fd; }
    return f;
}
static FILE* do_fopen(char const* path, char const* mode) {
    Suspend q;
    int fd = do_open(path, mode[0] != 'r' || strchr(mode, '+'));
    if(fd < 0) return nullptr;
    int e = errno;
    FILE* f = stream_of(fd);
    errno = e;
    return f;
}

template<class F> static F real_(char const* name) {
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if(!f) { fprintf(stderr, "simfs: no real %s\n", name); abort(); }
    return f;
}

} // namespace simfs

using namespace simfs;
#define REAL(name) ([]{ static decltype(&::name) f = nullptr; if(!f) f = real_<decltype(&::name)>(#name); return f; }())

extern "C" {

FILE* fopen(char const* path, char const* mode) { return ours(path) ? do_fopen(path, mode) : REAL(fopen)(path, mode); }
FILE* fopen64(char const* path, char const* mode) { return ours(path) ? do_fopen(path, mode) : REAL(fopen64)(path, mode); }
int fileno(FILE* f) noexcept {
    if(any) { auto it = disk().files.find(f); if(it != disk().files.end()) return it->second; }
    return REAL(fileno)(f);
}
FILE* fdopen(int fd, char const* mode) noexcept { return ours(fd) ? stream_of(fd) : REAL(fdopen)(fd, mode); }
static int open_impl(char const* path, int flags) {
    sim::Suspend q;
    if(flags & O_DIRECTORY) { errno = ENOTDIR; return -1; }
    return do_open(path, (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
}
int open(char const* path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return ours(path) ? open_impl(path, flags) : REAL(open)(path, flags, m);
}
int open64(char const* path, int flags, ...) {
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return ours(path) ? open_impl(path, flags) : REAL(open64)(path, flags, m);
}
ssize_t read(int fd, void* buf, size_t n) {
    if(!ours(fd)) return REAL(read)(fd, buf, n);
    sim::Suspend q;
    Handle* h = handle(fd);
    if(!h) { errno = EBADF; return -1; }
    ssize_t r = do_read(*h, buf, n, h->pos);
    if(r > 0) h->pos += uint64_t(r);
    return r;
}
static ssize_t pread_impl(int fd, void* buf, size_t n, off64_t off) {
    sim::Suspend q;
    Handle* h = handle(fd);
    if(!h) { errno = EBADF; return -1; }
    return do_read(*h, buf, n, uint64_t(off));
}
ssize_t pread(int fd, void* buf, size_t n, off_t off) { return ours(fd) ? pread_impl(fd, buf, n, off) : REAL(pread)(fd, buf, n, off); }
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) { return ours(fd) ? pread_impl(fd, buf, n, off) : REAL(pread64)(fd, buf, n, off); }
ssize_t write(int fd, void const* buf, size_t n) { if(ours(fd)) { errno = EBADF; return -1; } return REAL(write)(fd, buf, n); }
static off64_t lseek_impl(int fd, off64_t off, int whence) {
    sim::Suspend q;
    Handle* h = handle(fd);
    if(!h) { errno = EBADF; return -1; }
    return do_seek(*h, off, whence);
}
off_t lseek(int fd, off_t off, int whence) noexcept { return ours(fd) ? lseek_impl(fd, off, whence) : REAL(lseek)(fd, off, whence); }
off64_t lseek64(int fd, off64_t off, int whence) noexcept { return ours(fd) ? lseek_impl(fd, off, whence) : REAL(lseek64)(fd, off, whence); }
int close(int fd) {
    if(!ours(fd)) return REAL(close)(fd);
    sim::Suspend q;
    return do_close(fd);
}
static int fstat_impl(int fd, struct stat* st) {
    sim::Suspend q;
    Handle* h = handle(fd);
    if(!h) { errno = EBADF; return -1; }
    disk().current = h->path;
    point(OP_STAT, uint64_t(fd - FD0));
    if(ask(sim::F_IO_ERROR, 0, nullptr)) { errno = EIO; return -1; }
    fill_stat(*h->node, st);
    return 0;
}
static int stat_impl(char const* p, struct stat* st) { sim::Suspend q; return do_stat(p, st); }
int fstat(int fd, struct stat* st) noexcept { return ours(fd) ? fstat_impl(fd, st) : REAL(fstat)(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { return ours(fd) ? fstat_impl(fd, reinterpret_cast<struct stat*>(st)) : REAL(fstat64)(fd, st); }
int stat(char const* p, struct stat* st) noexcept { return ours(p) ? stat_impl(p, st) : REAL(stat)(p, st); }
int stat64(char const* p, struct stat64* st) noexcept { return ours(p) ? stat_impl(p, reinterpret_cast<struct stat*>(st)) : REAL(stat64)(p, st); }
int lstat(char const* p, struct stat* st) noexcept { return ours(p) ? stat_impl(p, st) : REAL(lstat)(p, st); }
int lstat64(char const* p, struct stat64* st) noexcept { return ours(p) ? stat_impl(p, reinterpret_cast<struct stat*>(st)) : REAL(lstat64)(p, st); }
static int fstatat_impl(char const* p, struct stat* st) { return stat_impl(p, st); }
int fstatat(int d, char const* p, struct stat* st, int fl) noexcept { return ours(p) ? fstatat_impl(p, st) : REAL(fstatat)(d, p, st, fl); }
int fstatat64(int d, char const* p, struct stat64* st, int fl) noexcept { return ours(p) ? fstatat_impl(p, reinterpret_cast<struct stat*>(st)) : REAL(fstatat64)(d, p, st, fl); }
int access(char const* p, int mode) noexcept {
    if(!ours(p)) return REAL(access)(p, mode);
    struct stat st;
    int r = stat_impl(p, &st);
    if(r == 0 && (mode & W_OK)) { errno = EROFS; return -1; }
    return r;
}
DIR* opendir(char const* p) { if(ours(p)) { errno = EACCES; return nullptr; } return REAL(opendir)(p); }
ssize_t readlink(char const* p, char* buf, size_t n) noexcept { if(ours(p)) { errno = EINVAL; return -1; } return REAL(readlink)(p, buf, n); }
char* realpath(char const* p, char* out) noexcept {
    if(!ours(p)) return REAL(realpath)(p, out);
    std::string s = norm(p);
    if(!out) out = static_cast<char*>(malloc(PATH_MAX));
    strcpy(out, s.c_str());
    return out;
}
static int flock_impl(int fd) {
    sim::Suspend q;
    Handle* h = handle(fd);
    if(!h) { errno = EBADF; return -1; }
    disk().current = h->path;
    point(OP_LOCK, uint64_t(fd - FD0));
    int64_t a = 0;
    if(ask(sim::F_IO_ERROR, 2, &a)) { errno = a == 0 ? EWOULDBLOCK : ENOLCK; return -1; }
    return 0;
}
int flock(int fd, int op) noexcept { return !ours(fd) ? REAL(flock)(fd, op) : (op & LOCK_UN) ? 0 : flock_impl(fd); }
int isatty(int fd) noexcept { if(ours(fd)) { errno = ENOTTY; return 0; } return REAL(isatty)(fd); }
static int fcntl_impl(int fd, int cmd) {
    (void)fd;
    return cmd == F_GETFL ? O_RDONLY : 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
    return ours(fd) ? fcntl_impl(fd, cmd) : REAL(fcntl)(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
    return ours(fd) ? fcntl_impl(fd, cmd) : REAL(fcntl64)(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if(ours(fd)) { errno = ENOTTY; return -1; }
    static auto f = real_<int (*)(int, unsigned long, ...)>("ioctl");
    return f(fd, req, a);
}
int posix_fadvise(int fd, off_t o, off_t l, int a) noexcept { return ours(fd) ? 0 : REAL(posix_fadvise)(fd, o, l, a); }
int posix_fadvise64(int fd, off64_t o, off64_t l, int a) noexcept { return ours(fd) ? 0 : REAL(posix_fadvise64)(fd, o, l, a); }

} // extern "C"

// clersim I/O layer: virtual memory calls, file system and datagram sockets, all simulated.
#include "internal.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/select.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdarg>
#include <memory>
#include <deque>
#include <set>

using namespace sim;
#define REAL(ret, name, ...) \
    typedef ret (*name##_fnptr)(__VA_ARGS__); \
    static name##_fnptr real_##name() { static name##_fnptr f = nullptr; if (!f) f = (name##_fnptr)dlsym(RTLD_NEXT, #name); return f; }

namespace {
constexpr int FD0 = 256;      // small enough for an fd_set; the process itself never has that many open
struct Node { std::string data; bool is_sock = false; };
typedef std::shared_ptr<Node> NodeP;
struct Dgram { std::string data; u64 at; u64 seq; std::string from; };
struct Sfd {
    enum { MEM, FIL, SOCK } kind = FIL;
    bool open = true;
    int real = -1; size_t memsize = 0; std::string name;          // MEM
    NodeP node; i64 pos = 0; bool append = false, rd = true, wr = true; FILE* fp = nullptr; int flags = 0;   // FIL
    int fam = 0; std::string bound, peer; u64 rcvtimeo = 0; bool nonblock = false; std::deque<Dgram> q;   // SOCK
    char waitch = 0;
    VC vc;
};
struct IO {
    std::vector<Sfd*> fds;
    std::map<std::string, NodeP> fs;
    std::map<std::string, int> shm;
    i64 budget = -1;
    void (*on_write)(const std::string&) = nullptr;
    void (*on_event)(char, const std::string&, const std::string&, const std::string&, const std::string*) = nullptr;
    std::map<FILE*, int> files; std::set<FILE*> closed;
    struct Vma { size_t len; int fd; bool fixed; size_t huge = 0; };
    std::map<uptr, Vma> vma;
    size_t page = 4096; size_t huge = 2u << 20; bool huge_ok = false;
    std::vector<Sent> sent; std::vector<Recvd> recvd; u64 attempts = 0, dseq = 0;
    std::set<FILE*> shadow_std;
    VC stdvc;
};
IO& io() { static IO* x = [] { Rt r; return new IO; }(); return *x; }
Sfd* get(int fd) { int i = fd - FD0; if (i < 0 || i >= (int)io().fds.size()) return nullptr; return io().fds[i]; }
bool is_sim(int fd) { return fd >= FD0; }
int newfd(Sfd* s) { s->vc.clear(); io().fds.push_back(s); return FD0 + (int)io().fds.size() - 1; }
int badfd() { errno = EBADF; return -1; }
}  // namespace

// ==================================================================== virtual memory
REAL(void*, mmap, void*, size_t, int, int, int, off_t)
REAL(int, munmap, void*, size_t)
REAL(long, syscall, long, ...)
REAL(int, ftruncate, int, off_t)
REAL(int, close, int)
REAL(long, sysconf, int)

static int sim_memfd(const char* name, bool shm) {
    if (on()) sched_point(50);
    Rt r;
    if (shm ? fault(F_SHMOPEN) : fault(F_MEMFD)) { static const int e[3] = {EMFILE, ENOSYS, ENOMEM}; errno = e[fault_pick(shm ? F_SHMOPEN : F_MEMFD, 3)]; return -1; }
    int rf = (int)real_syscall()(SYS_memfd_create, "clersim", 1u);
    if (rf < 0) fail("harness-limit", "memfd_create failed for real");
    Sfd* s = new Sfd; s->kind = Sfd::MEM; s->real = rf; s->name = name ? name : "";
    return newfd(s);
}
SIM_EXPORT int memfd_create(const char* n, unsigned) { return sim_memfd(n, false); }
SIM_EXPORT int shm_open(const char* n, int fl, mode_t) {
    Rt r;
    auto& m = io().shm;
    if ((fl & O_EXCL) && m.count(n)) { errno = EEXIST; return -1; }
    if (!(fl & O_CREAT) && !m.count(n)) { errno = ENOENT; return -1; }
    g.in_rt--; int fd = sim_memfd(n, true); g.in_rt++;
    if (fd >= 0) { if (m.count(n) && (fl & O_EXCL)) { close(fd); errno = EEXIST; return -1; } m[n] = fd; }
    return fd;
}
SIM_EXPORT int shm_unlink(const char* n) { Rt r; if (!io().shm.erase(n)) { errno = ENOENT; return -1; } return 0; }
SIM_EXPORT long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a[6]; for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (live()) {
        if (nr == SYS_memfd_create) return sim_memfd((const char*)a[0], false);
        if (nr == SYS_futex) return sim_futex((u32*)a[0], (int)a[1], (u32)a[2], (const struct timespec*)a[3]);
        if (nr == SYS_gettid) return 4242 + g.cur->tid;
    }
    return real_syscall()(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
SIM_EXPORT int ftruncate(int fd, off_t n) {
    if (!live() || !is_sim(fd)) return real_ftruncate()(fd, n);
    if (on()) sched_point(51);
    Rt r;
    Sfd* s = get(fd); if (!s || !s->open) return badfd();
    if (fault(F_FTRUNCATE)) { errno = ENOSPC; return -1; }
    if (s->kind == Sfd::MEM) { s->memsize = n; return real_ftruncate()(s->real, n); }
    if (s->kind == Sfd::FIL) { s->node->data.resize(n); return 0; }
    errno = EINVAL; return -1;
}
SIM_EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

static size_t vma_cover(uptr a, size_t n) {   // bytes of [a,a+n) that the code under test owns
    size_t c = 0;
    for (auto& v : io().vma) { uptr b = v.first, e = b + v.second.len; uptr lo = b > a ? b : a, hi = e < a + n ? e : a + n; if (lo < hi) c += hi - lo; }
    return c;
}
// the kernel refuses to split a mapping of huge pages inside a page
static bool vma_splits_huge(uptr a, size_t n) {
    for (auto& v : io().vma) { uptr b = v.first, e = b + v.second.len; size_t h = v.second.huge; if (!h || e <= a || b >= a + n) continue;
        if ((a > b && (a - b) % h) || (a + n < e && (a + n - b) % h)) return true; }
    return false;
}
static void vma_cut(uptr a, size_t n) {
    std::map<uptr, IO::Vma> nm;
    for (auto& v : io().vma) {
        uptr b = v.first, e = b + v.second.len;
        if (e <= a || b >= a + n) { nm[b] = v.second; continue; }
        if (b < a) { auto w = v.second; w.len = a - b; nm[b] = w; }
        if (e > a + n) { auto w = v.second; w.len = e - (a + n); nm[a + n] = w; }
    }
    io().vma.swap(nm);
}
SIM_EXPORT void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!live()) return real_mmap()(addr, len, prot, flags, fd, off);
    if (on()) sched_point(52);
    Rt r;
    IO& x = io();
    auto bad = [](int e) { errno = e; return MAP_FAILED; };
    if (len == 0) return bad(EINVAL);
    size_t plen = (len + x.page - 1) / x.page * x.page;
    if (fault(F_MMAP)) { static const int e[3] = {ENOMEM, EAGAIN, EMFILE}; return bad(e[fault_pick(F_MMAP, 3)]); }
    const bool huge = flags & MAP_HUGETLB;
    if (huge) {
        if (!x.huge_ok) { g.sh->fault[F_HUGEPAGE_REFUSED]++; return bad(ENOMEM); }
        if (len % x.huge) plen = (len + x.huge - 1) / x.huge * x.huge;
        flags &= ~MAP_HUGETLB; flags &= ~(63 << 26);
    }
    int rfd = -1; Sfd* s = nullptr;
    if (!(flags & MAP_ANONYMOUS)) {
        s = get(fd);
        if (!s || !s->open || s->kind != Sfd::MEM) return bad(EBADF);
        if (off % (off_t)x.page) return bad(EINVAL);
        rfd = s->real;
    }
    if (flags & MAP_FIXED) {
        if ((uptr)addr % x.page) return bad(EINVAL);
        if (vma_cover((uptr)addr, plen) != plen) fail("map-fixed-clobber", "MAP_FIXED mapping of %zu bytes replaces memory the code does not own", len);
        if (vma_splits_huge((uptr)addr, plen)) return bad(EINVAL);
        void* p = real_mmap()(addr, plen, prot, flags, rfd, off);
        if (p == MAP_FAILED) return p;
        vma_cut((uptr)addr, plen);
        x.vma[(uptr)addr] = {plen, fd, true, 0};
        // a second view of the same object shares the shadow of the first one
        for (auto& v : x.vma) if (s && v.second.fd == fd && v.first != (uptr)addr && off == 0) { shadow_alias((uptr)addr, v.first, plen < v.second.len ? plen : v.second.len); break; }
        return p;
    }
    // keep simulated mappings aligned to the simulated page size
    size_t al = huge ? x.huge : x.page;
    char* raw = (char*)real_mmap()(nullptr, plen + al, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (raw == MAP_FAILED) return bad(ENOMEM);
    char* p = (char*)(((uptr)raw + al - 1) / al * al);
    if (real_mmap()(p, plen, prot, (flags & ~MAP_FIXED) | MAP_FIXED, rfd, off) == MAP_FAILED) { int e = errno; real_munmap()(raw, plen + al); return bad(e); }
    x.vma[(uptr)p] = {plen, s ? fd : -1, false, huge ? x.huge : 0};
    if (s) for (auto& v : x.vma) if (v.second.fd == fd && v.first != (uptr)p && off == 0) { shadow_alias((uptr)p, v.first, plen < v.second.len ? plen : v.second.len); break; }
    return p;
}
SIM_EXPORT void* mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }
SIM_EXPORT int munmap(void* addr, size_t len) {
    if (!live()) return real_munmap()(addr, len);
    if (on()) sched_point(53);
    Rt r;
    IO& x = io();
    if ((uptr)addr % x.page || len == 0) { errno = EINVAL; return -1; }
    size_t plen = (len + x.page - 1) / x.page * x.page;
    size_t c = vma_cover((uptr)addr, plen);
    if (c != plen) fail("bad-munmap", "munmap of %zu bytes covers %zu bytes that are not mapped by this code (double unmap or wrong size)", plen, plen - c);
    if (vma_splits_huge((uptr)addr, plen)) { errno = EINVAL; return -1; }
    vma_cut((uptr)addr, plen);
    shadow_unmap((uptr)addr, plen);
    real_mmap()(addr, plen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);   // never reused: later accesses crash
    return 0;
}
SIM_EXPORT int mprotect(void* a, size_t n, int p) { return (int)real_syscall()(SYS_mprotect, a, n, p); }
SIM_EXPORT long sysconf(int n) {
    if (g.running && (n == _SC_PAGESIZE)) return (long)io().page;
    if (g.running && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return 8;
    return real_sysconf()(n);
}
SIM_EXPORT int getpagesize(void) { return (int)io().page; }
SIM_EXPORT int get_nprocs(void) { return 8; }
namespace sim {
int res_live_fds() { int n = 0; for (auto s : io().fds) if (s->open) n++; return n; }
int res_live_maps() { return (int)io().vma.size(); }
int live_fds() { return res_live_fds(); }
int live_maps() { return res_live_maps(); }
int live_files() { int n = 0; for (auto s : io().fds) if (s->open && s->kind == Sfd::FIL) n++; return n; }
std::string live_resources_report() {
    Rt r; std::string o;
    for (size_t i = 0; i < io().fds.size(); i++) { Sfd* s = io().fds[i]; if (s->open) o += std::string(" fd(") + (s->kind == Sfd::MEM ? "shared memory" : s->kind == Sfd::SOCK ? "socket " + s->bound : "file " + s->name) + ")"; }
    for (auto& v : io().vma) o += " mapping(" + std::to_string(v.second.len) + "B)";
    for (auto& m : io().shm) o += " named shared memory " + m.first;
    return o;
}
void set_page_size(size_t b) { io().page = b; }
void set_huge_page(size_t b, bool ok) { io().huge = b; io().huge_ok = ok; }
bool is_mapped_alias(const void* p) { uptr a = (uptr)p; for (auto& v : io().vma) if (a >= v.first && a < v.first + v.second.len) return v.second.fd >= 0; return false; }
}  // namespace sim

// ==================================================================== files
static void wrote(Sfd* s) { if (io().on_write) { Quiet q; io().on_write(s->name); } }
// one kernel-level write; may be short
static ssize_t kwrite(Sfd* s, const char* b, size_t n) {
    if (!s->wr) { errno = EBADF; return -1; }
    g.now += 1500 + n / 4;
    if (n == 0) return 0;
    if (s->name == "<stdout>") { s->node->data.append(b, n); return (ssize_t)n; }
    if (fault(F_WRITE_ERR)) { static const int e[3] = {EIO, EINTR, EDQUOT}; errno = e[fault_pick(F_WRITE_ERR, 3)]; return -1; }
    size_t m = n;
    if (n > 1 && fault(F_WRITE_SHORT)) m = 1 + fault_pick(F_WRITE_SHORT, (u32)(n - 1));
    if (fault(F_DISK_FULL)) io().budget = fault_pick(F_DISK_FULL, (u32)(n < 4096 ? n : 4096));
    if (io().budget >= 0) {
        if (io().budget == 0) { g.sh->fault[F_DISK_FULL]++; errno = ENOSPC; return -1; }
        if ((i64)m > io().budget) m = (size_t)io().budget;
        io().budget -= (i64)m;
    }
    std::string& d = s->node->data;
    if (s->append) s->pos = (i64)d.size();
    if ((size_t)s->pos + m > d.size()) d.resize(s->pos + m, '\0');
    memcpy(&d[s->pos], b, m);
    s->pos += (i64)m;
    wrote(s);
    return (ssize_t)m;
}
static ssize_t kread(Sfd* s, char* b, size_t n) {
    if (!s->rd) { errno = EBADF; return -1; }
    g.now += 1500 + n / 8;
    if (fault(F_READ_ERR)) { errno = fault_pick(F_READ_ERR, 3) == 0 ? EIO : EINTR; return -1; }
    std::string& d = s->node->data;
    size_t av = (size_t)s->pos < d.size() ? d.size() - s->pos : 0;
    size_t m = n < av ? n : av;
    if (m > 1 && fault(F_READ_SHORT)) m = 1 + fault_pick(F_READ_SHORT, (u32)(m - 1));
    memcpy(b, d.data() + s->pos, m);
    s->pos += (i64)m;
    return (ssize_t)m;
}
static i64 kseek(Sfd* s, i64 off, int wh) {
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->pos : (i64)s->node->data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    return s->pos = base + off;
}
// stdio cookie functions: called by libc with its FILE lock held, so they never switch threads
static ssize_t ck_read(void* c, char* b, size_t n) {
    Rt r; Sfd* s = (Sfd*)c;
    return kread(s, b, n);
}
static ssize_t ck_write(void* c, const char* b, size_t n) {   // same loop as libc's own file writer
    Rt r; Sfd* s = (Sfd*)c; size_t done = 0;
    while (done < n) { ssize_t k = kwrite(s, b + done, n - done); if (k < 0) break; done += (size_t)k; }
    return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* o, int wh) { Rt r; i64 p = kseek((Sfd*)c, *o, wh); if (p < 0) return -1; *o = p; return 0; }
static int ck_close(void* c) { Rt r; Sfd* s = (Sfd*)c; s->open = false; return 0; }

REAL(FILE*, fopen, const char*, const char*)
static FILE* sim_fopen(const char* path, const char* mode) {
    if (on()) sched_point(60);
    Rt r;
    IO& x = io();
    std::string p = path;
    if (p == "/proc/meminfo") {
        if (fault(F_OPEN)) { errno = EMFILE; return nullptr; }
        std::string t = "MemTotal:       16000000 kB\nHugePages_Total:       0\nHugePages_Free:        0\nHugepagesize:       " + std::to_string(x.huge / 1024) + " kB\n";
        NodeP n = std::make_shared<Node>(); n->data = t;
        Sfd* s = new Sfd; s->kind = Sfd::FIL; s->node = n; s->wr = false; s->name = p;
        int fd = newfd(s); cookie_io_functions_t f = {ck_read, nullptr, ck_seek, ck_close};
        s->fp = fopencookie(s, "r", f); x.files[s->fp] = fd; x.closed.erase(s->fp);
        return s->fp;
    }
    if (fault(F_OPEN)) { static const int e[4] = {EMFILE, EACCES, ENOSPC, EIO}; errno = e[fault_pick(F_OPEN, 4)]; return nullptr; }
    bool plus = strchr(mode, '+'), rd = mode[0] == 'r', ap = mode[0] == 'a', ex = strchr(mode, 'x');
    auto it = x.fs.find(p);
    if (rd && it == x.fs.end()) { errno = ENOENT; return nullptr; }
    if (ex && it != x.fs.end()) { errno = EEXIST; return nullptr; }
    NodeP n;
    if (it == x.fs.end()) { n = std::make_shared<Node>(); x.fs[p] = n; } else n = it->second;
    if (mode[0] == 'w') n->data.clear();
    Sfd* s = new Sfd; s->kind = Sfd::FIL; s->node = n; s->append = ap; s->rd = rd || plus; s->wr = !rd || plus; s->name = p;
    s->flags = s->rd && s->wr ? O_RDWR : s->wr ? O_WRONLY : O_RDONLY;
    int fd = newfd(s);
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    s->fp = fopencookie(s, mode, f);
    x.files[s->fp] = fd; x.closed.erase(s->fp);
    if (g.verbose) evlog("fopen %s %s", path, mode);
    return s->fp;
}
SIM_EXPORT FILE* fopen(const char* p, const char* m) { if (!live()) return real_fopen()(p, m); return sim_fopen(p, m); }
SIM_EXPORT FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
REAL(FILE*, fdopen, int, const char*)
SIM_EXPORT FILE* fdopen(int fd, const char* m) {
    if (!live() || !is_sim(fd)) return real_fdopen()(fd, m);
    if (on()) sched_point(60);
    Rt r; Sfd* s = get(fd); if (!s || !s->open || s->kind != Sfd::FIL) { errno = EBADF; return nullptr; }
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close}; s->fp = fopencookie(s, m, f); io().files[s->fp] = fd; io().closed.erase(s->fp); return s->fp;
}
// every stdio call on a simulated stream passes here first
static Sfd* stream(FILE* f, const char* what, bool pt = true) {
    if (!live()) return nullptr;
    if (pt && on()) sched_point(61);
    Rt r;
    auto it = io().files.find(f);
    if (it != io().files.end()) { Sfd* s = get(it->second); vc_acquire_from(s->vc); vc_release_to(s->vc); return s; }
    if (io().closed.count(f)) fail("use-after-close", "%s on a file stream that is already closed, by T%d(%s)", what, g.cur->tid, g.cur->name);
    return nullptr;
}
REAL(int, fclose, FILE*)
SIM_EXPORT int fclose(FILE* f) {
    Sfd* s = stream(f, "fclose");
    if (!s) return real_fclose()(f);
    Rt r;
    io().files.erase(f); io().closed.insert(f);
    int rc = real_fclose()(f);
    s->open = false; s->fp = nullptr;
    if (fault(F_CLOSE)) { errno = EIO; return EOF; }
    return rc;
}
REAL(size_t, fwrite, const void*, size_t, size_t, FILE*)
SIM_EXPORT size_t fwrite(const void* b, size_t a, size_t n, FILE* f) { if (live()) { stream(f, "fwrite"); if (on()) access_range((uptr)b, a * n, false, PC()); } Rt r; return real_fwrite()(b, a, n, f); }
REAL(size_t, fread, void*, size_t, size_t, FILE*)
SIM_EXPORT size_t fread(void* b, size_t a, size_t n, FILE* f) { if (live()) { stream(f, "fread"); if (on()) access_range((uptr)b, a * n, true, PC()); } Rt r; return real_fread()(b, a, n, f); }
REAL(int, fflush, FILE*)
SIM_EXPORT int fflush(FILE* f) { if (f) stream(f, "fflush"); Rt r; return real_fflush()(f); }
REAL(int, vfprintf, FILE*, const char*, va_list)
SIM_EXPORT int vfprintf(FILE* f, const char* fmt, va_list ap) { stream(f, "fprintf"); Rt r; return real_vfprintf()(f, fmt, ap); }
SIM_EXPORT int fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); stream(f, "fprintf"); Rt r; int n = real_vfprintf()(f, fmt, ap); va_end(ap); return n; }
SIM_EXPORT int printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); stream(stdout, "printf"); Rt r; int n = real_vfprintf()(stdout, fmt, ap); va_end(ap); return n; }
REAL(int, fputs, const char*, FILE*)
SIM_EXPORT int fputs(const char* s, FILE* f) { stream(f, "fputs"); Rt r; return real_fputs()(s, f); }
SIM_EXPORT int puts(const char* s) { stream(stdout, "puts"); Rt r; real_fputs()(s, stdout); return real_fputs()("\n", stdout); }
REAL(int, fputc, int, FILE*)
SIM_EXPORT int fputc(int c, FILE* f) { stream(f, "fputc"); Rt r; return real_fputc()(c, f); }
SIM_EXPORT int putc(int c, FILE* f) { return fputc(c, f); }
REAL(int, fseek, FILE*, long, int)
SIM_EXPORT int fseek(FILE* f, long o, int w) { stream(f, "fseek"); Rt r; return real_fseek()(f, o, w); }
REAL(long, ftell, FILE*)
SIM_EXPORT long ftell(FILE* f) { stream(f, "ftell"); Rt r; return real_ftell()(f); }
REAL(char*, fgets, char*, int, FILE*)
SIM_EXPORT char* fgets(char* b, int n, FILE* f) { stream(f, "fgets"); Rt r; return real_fgets()(b, n, f); }
REAL(int, setvbuf, FILE*, char*, int, size_t)
SIM_EXPORT int setvbuf(FILE* f, char* b, int m, size_t n) { if (stream(f, "setvbuf")) { if (fault(F_SETVBUF)) { errno = ENOMEM; return -1; } } Rt r; return real_setvbuf()(f, b, m, n); }
REAL(int, fileno, FILE*)
SIM_EXPORT int fileno(FILE* f) { if (live()) { Rt r; auto it = io().files.find(f); if (it != io().files.end()) return it->second; } return real_fileno()(f); }
REAL(int, ferror, FILE*)
SIM_EXPORT int ferror(FILE* f) { stream(f, "ferror", false); Rt r; return real_ferror()(f); }
REAL(void, clearerr, FILE*)
SIM_EXPORT void clearerr(FILE* f) { stream(f, "clearerr", false); Rt r; real_clearerr()(f); }
REAL(int, rename, const char*, const char*)
SIM_EXPORT int rename(const char* a, const char* b) {
    if (!live()) return real_rename()(a, b);
    if (on()) sched_point(62);
    Rt r;
    if (fault(F_RENAME)) { errno = EACCES; return -1; }
    auto it = io().fs.find(a); if (it == io().fs.end()) { errno = ENOENT; return -1; }
    NodeP n = it->second; std::string to = b;
    if (io().on_event) { auto t = io().fs.find(to); Quiet q; io().on_event('r', a, to, n->data, t == io().fs.end() || to == a ? nullptr : &t->second->data); }
    if (to != a) { io().fs.erase(it); io().fs[to] = n; }
    if (g.verbose) evlog("rename %s -> %s", a, b);
    return 0;
}
static int sim_unlink(const char* p) {
    if (on()) sched_point(63);
    Rt r;
    if (fault(F_UNLINK)) { errno = EACCES; return -1; }
    if (io().on_event) { auto t = io().fs.find(p); if (t != io().fs.end()) { Quiet q; io().on_event('u', p, "", t->second->data, nullptr); } }
    if (!io().fs.erase(p)) { errno = ENOENT; return -1; }
    if (g.verbose) evlog("unlink %s", p);
    return 0;
}
REAL(int, unlink, const char*)
SIM_EXPORT int unlink(const char* p) { if (!live()) return real_unlink()(p); return sim_unlink(p); }
REAL(int, remove, const char*)
SIM_EXPORT int remove(const char* p) noexcept { if (!live()) return real_remove()(p); return sim_unlink(p); }
REAL(int, access, const char*, int)
SIM_EXPORT int access(const char* p, int m) { if (!live()) return real_access()(p, m); Rt r; if (io().fs.count(p)) return 0; errno = ENOENT; return -1; }
REAL(int, open, const char*, int, ...)
SIM_EXPORT int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); mode_t md = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
    if (!live()) return real_open()(p, fl, md);
    if (on()) sched_point(60);
    Rt r; IO& x = io();
    if (fault(F_OPEN)) { errno = EMFILE; return -1; }
    auto it = x.fs.find(p);
    if (it == x.fs.end() && !(fl & O_CREAT)) { errno = ENOENT; return -1; }
    NodeP n; if (it == x.fs.end()) { n = std::make_shared<Node>(); x.fs[p] = n; } else n = it->second;
    if (fl & O_TRUNC) n->data.clear();
    Sfd* s = new Sfd; s->kind = Sfd::FIL; s->node = n; s->append = fl & O_APPEND; int am = fl & O_ACCMODE; s->rd = am != O_WRONLY; s->wr = am != O_RDONLY; s->name = p; s->flags = fl;
    return newfd(s);
}
SIM_EXPORT int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t md = (fl & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap); return open(p, fl, md); }
REAL(ssize_t, read, int, void*, size_t)
SIM_EXPORT ssize_t read(int fd, void* b, size_t n) {
    if (!live() || !is_sim(fd)) return real_read()(fd, b, n);
    if (on()) sched_point(64);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd();
    if (s->kind == Sfd::SOCK) { g.in_rt--; ssize_t k = recv(fd, b, n, 0); g.in_rt++; return k; }
    ssize_t k = kread(s, (char*)b, n);
    g.in_rt--; if (k > 0 && on()) access_range((uptr)b, (size_t)k, true, PC()); g.in_rt++;
    return k;
}
REAL(ssize_t, write, int, const void*, size_t)
SIM_EXPORT ssize_t write(int fd, const void* b, size_t n) {
    if (!live() || !is_sim(fd)) return real_write()(fd, b, n);
    if (on()) sched_point(65);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd();
    return kwrite(s, (const char*)b, n);
}
SIM_EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!live() || !is_sim(fd)) return real_syscall()(SYS_writev, fd, v, c);
    ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t;
}
REAL(off_t, lseek, int, off_t, int)
SIM_EXPORT off_t lseek(int fd, off_t o, int w) { if (!live() || !is_sim(fd)) return real_lseek()(fd, o, w); Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd(); return kseek(s, o, w); }
SIM_EXPORT off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
SIM_EXPORT int fstat(int fd, struct stat* st) {
    if (!live() || !is_sim(fd)) return (int)real_syscall()(SYS_fstat, fd, st);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd();
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = s->node ? (off_t)s->node->data.size() : (off_t)s->memsize; return 0;
}
SIM_EXPORT int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
SIM_EXPORT int stat(const char* p, struct stat* st) {
    if (!live()) return (int)real_syscall()(SYS_stat, p, st);
    Rt r; auto it = io().fs.find(p);
    if (it == io().fs.end()) {       // directories are there when they hold a file
        std::string d = p; while (d.size() > 1 && d.back() == '/') d.pop_back(); auto in = io().fs.lower_bound(d + "/");
        if (d != "." && d != "/" && (in == io().fs.end() || in->first.compare(0, d.size() + 1, d + "/"))) { errno = ENOENT; return -1; }
        memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0;
    }
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)it->second->data.size(); return 0;
}
SIM_EXPORT int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
SIM_EXPORT int lstat(const char* p, struct stat* st) { if (!live()) return (int)real_syscall()(SYS_lstat, p, st); return stat(p, st); }
SIM_EXPORT int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
REAL(int, ioctl, int, unsigned long, ...)
SIM_EXPORT int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void* a = va_arg(ap, void*); va_end(ap);
    if (!live() || !is_sim(fd)) return real_ioctl()(fd, rq, a);
    errno = ENOTTY; return -1;
}
SIM_EXPORT int fsync(int fd) {
    if (!live() || !is_sim(fd)) return (int)real_syscall()(SYS_fsync, fd);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd();
    if (fault(F_FSYNC)) { errno = EIO; return -1; }
    return 0;
}
SIM_EXPORT int fdatasync(int fd) { if (!live() || !is_sim(fd)) return (int)real_syscall()(SYS_fdatasync, fd); return fsync(fd); }
SIM_EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) {
    if (!live() || !is_sim(fd)) return real_syscall()(SYS_pread64, fd, b, n, o);
    if (on()) sched_point(64);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd(); if (s->kind != Sfd::FIL) { errno = ESPIPE; return -1; }
    i64 at = s->pos; s->pos = o; ssize_t k = kread(s, (char*)b, n); s->pos = at;
    g.in_rt--; if (k > 0 && on()) access_range((uptr)b, (size_t)k, true, PC()); g.in_rt++;
    return k;
}
SIM_EXPORT ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
SIM_EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
    if (!live() || !is_sim(fd)) return real_syscall()(SYS_pwrite64, fd, b, n, o);
    if (on()) sched_point(65);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd(); if (s->kind != Sfd::FIL) { errno = ESPIPE; return -1; }
    i64 at = s->pos; s->pos = o; ssize_t k = kwrite(s, (const char*)b, n); s->pos = at; return k;
}
SIM_EXPORT ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
SIM_EXPORT int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!live() || !is_sim(fd)) return (int)real_syscall()(SYS_fcntl, fd, cmd, a);
    Rt r; Sfd* s = get(fd); if (!s || !s->open) return badfd();
    if (cmd == F_GETFL) return s->flags | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = a & O_NONBLOCK; return 0; }
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    errno = EINVAL; return -1;
}
SIM_EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
SIM_EXPORT int close(int fd) {
    if (!live()) return real_close()(fd);
    if (on()) sched_point(66);
    Rt r;
    if (fd < 0) { errno = EBADF; return -1; }
    Sfd* s = is_sim(fd) ? get(fd) : nullptr;
    if (!s) fail("bad-close", "close(%d): descriptor was never opened by this code", fd);
    if (!s->open) fail("bad-close", "descriptor closed twice by T%d(%s)", g.cur->tid, g.cur->name);
    s->open = false;
    if (s->real >= 0) real_close()(s->real);
    if (fault(F_CLOSE)) { errno = EIO; return -1; }
    return 0;
}

static FILE* g_stdout_saved;
namespace sim {
void fs_put(const std::string& p, const std::string& d) { Rt r; NodeP n = std::make_shared<Node>(); n->data = d; io().fs[p] = n; }
bool fs_exists(const std::string& p) { Rt r; return io().fs.count(p) > 0; }
std::string fs_get(const std::string& p) { Rt r; auto it = io().fs.find(p); return it == io().fs.end() ? std::string() : it->second->data; }
std::vector<std::string> fs_list() { Rt r; std::vector<std::string> v; for (auto& e : io().fs) v.push_back(e.first); return v; }
void fs_disk_budget(i64 b) { io().budget = b; }
void fs_on_write(void (*cb)(const std::string&)) { io().on_write = cb; }
void fs_on_event(void (*cb)(char, const std::string&, const std::string&, const std::string&, const std::string*)) { io().on_event = cb; }
void fs_capture_stdout(bool on_) {
    Rt r;
    if (!on_) return;
    NodeP n = std::make_shared<Node>(); io().fs["<stdout>"] = n;
    Sfd* s = new Sfd; s->kind = Sfd::FIL; s->node = n; s->append = true; s->name = "<stdout>"; s->open = false;
    newfd(s);
    cookie_io_functions_t f = {nullptr, ck_write, nullptr, nullptr};
    g_stdout_saved = stdout; stdout = fopencookie(s, "w", f);
}
}  // namespace sim

// ==================================================================== sockets
static std::string akey(const struct sockaddr* a, socklen_t n, bool with_ip) {
    char b[200] = "";
    if (a->sa_family == AF_INET) {
        auto* i = (const struct sockaddr_in*)a; char ip[64]; inet_ntop(AF_INET, &i->sin_addr, ip, sizeof ip);
        if (with_ip) snprintf(b, sizeof b, "4:%s:%u", ip, ntohs(i->sin_port)); else snprintf(b, sizeof b, "4:%u", ntohs(i->sin_port));
    } else if (a->sa_family == AF_INET6) {
        auto* i = (const struct sockaddr_in6*)a; char ip[64]; inet_ntop(AF_INET6, &i->sin6_addr, ip, sizeof ip);
        if (with_ip) snprintf(b, sizeof b, "6:[%s]:%u", ip, ntohs(i->sin6_port)); else snprintf(b, sizeof b, "6:%u", ntohs(i->sin6_port));
    } else if (a->sa_family == AF_UNIX) {
        auto* u = (const struct sockaddr_un*)a; (void)n; return std::string("u:") + u->sun_path;
    }
    return b;
}
SIM_EXPORT int socket(int fam, int type, int) {
    if (on()) sched_point(70);
    Rt r;
    if (fault(F_SOCKET)) { errno = fault_pick(F_SOCKET, 2) ? EAFNOSUPPORT : EMFILE; return -1; }
    Sfd* s = new Sfd; s->kind = Sfd::SOCK; s->fam = fam; s->nonblock = type & SOCK_NONBLOCK; s->flags = O_RDWR;
    return newfd(s);
}
static Sfd* gsock(int fd) { Sfd* s = get(fd); if (!s || !s->open || s->kind != Sfd::SOCK) { errno = EBADF; return nullptr; } return s; }
SIM_EXPORT int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t n) {
    if (on()) sched_point(71);
    Rt r; Sfd* s = gsock(fd); if (!s) return -1;
    if (fault(F_SETSOCKOPT)) { errno = ENOPROTOOPT; return -1; }
    if (lvl == SOL_SOCKET && opt == SO_RCVTIMEO && n == sizeof(struct timeval)) { auto* t = (const struct timeval*)v; if (t->tv_usec < 0 || t->tv_usec >= 1000000) { errno = EDOM; return -1; } s->rcvtimeo = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_usec * 1000; }
    return 0;
}
SIM_EXPORT int getsockopt(int, int, int, void* v, socklen_t* n) { memset(v, 0, *n); return 0; }
SIM_EXPORT int bind(int fd, const struct sockaddr* a, socklen_t n) {
    if (on()) sched_point(72);
    Rt r; Sfd* s = gsock(fd); if (!s) return -1;
    if (fault(F_BIND)) { errno = EADDRINUSE; return -1; }
    std::string k = akey(a, n, false);
    if (a->sa_family == AF_UNIX) {
        std::string p = ((const struct sockaddr_un*)a)->sun_path;
        if (io().fs.count(p)) { errno = EADDRINUSE; return -1; }
        NodeP nd = std::make_shared<Node>(); nd->is_sock = true; io().fs[p] = nd;
    }
    s->bound = k;
    return 0;
}
SIM_EXPORT int connect(int fd, const struct sockaddr* a, socklen_t n) { Rt r; Sfd* s = gsock(fd); if (!s) return -1; s->peer = akey(a, n, true); return 0; }
static std::string strip_ip(const std::string& k) { if (k[0] == 'u') return k; size_t c = k.rfind(':'); return k.substr(0, 2) + k.substr(c + 1); }
static void enqueue(Sfd* t, const std::string& d, u64 at, const std::string& from) {
    Dgram x{d, at, io().dseq++, from};
    auto it = t->q.end();
    while (it != t->q.begin() && (it - 1)->at > at) --it;
    t->q.insert(it, x);
    wake_all(&t->waitch);
}
static Sfd* bound_to(const std::string& k) { Sfd* f = nullptr; for (auto s : io().fds) if (s->open && s->kind == Sfd::SOCK && s->bound == k) f = s; return f; }
static void route(const std::string& to, const std::string& data, const std::string& from) {
    Sfd* t = bound_to(to);
    if (!t) return;
    bool ip = to[0] != 'u';
    if (ip && fault(F_NET_DROP)) return;
    u64 at = g.now + 20000;
    if (fault(F_NET_DELAY)) at += 1000 * (1 + fault_pick(F_NET_DELAY, 5000));
    enqueue(t, data, at, from);
    if (ip && fault(F_NET_DUP)) enqueue(t, data, at + 1000 * (1 + fault_pick(F_NET_DUP, 500)), from);
}
static ssize_t do_send(Sfd* s, const std::string& to, const void* b, size_t n, int) {
    Rt r; io().attempts++;
    g.now += 3000;
    if (to.empty()) { errno = EDESTADDRREQ; return -1; }
    if (fault(F_SEND_ERR)) { static const int e[6] = {EAGAIN, ENOBUFS, ECONNREFUSED, EINTR, EPERM, ENETUNREACH}; errno = e[fault_pick(F_SEND_ERR, 6)]; return -1; }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    if (to[0] == 'u' && !bound_to(to)) { errno = io().fs.count(to.substr(2)) ? ECONNREFUSED : ENOENT; return -1; }
    std::string d((const char*)b, n);
    vc_release_to(s->vc);
    io().sent.push_back({to, d});
    route(strip_ip(to), d, "");
    return (ssize_t)n;
}
SIM_EXPORT ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t al) {
    if (on()) { sched_point(73); access_range((uptr)b, n, false, PC()); }
    Rt r; Sfd* s = gsock(fd); if (!s) return -1;
    return do_send(s, a ? akey(a, al, true) : s->peer, b, n, fl);
}
SIM_EXPORT ssize_t send(int fd, const void* b, size_t n, int fl) { return sendto(fd, b, n, fl, nullptr, 0); }
SIM_EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
    if (on()) sched_point(73);
    Rt r; Sfd* s = gsock(fd); if (!s) return -1;
    std::string d; for (size_t i = 0; i < m->msg_iovlen; i++) d.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return do_send(s, m->msg_name ? akey((const struct sockaddr*)m->msg_name, m->msg_namelen, true) : s->peer, d.data(), d.size(), fl);
}
static ssize_t do_recv(int fd, struct iovec* iov, size_t ni, int fl, int* mflags) {
    if (on()) sched_point(74);
    Rt r; Sfd* s = gsock(fd); if (!s) return -1;
    g.now += 2000;
    u64 dl = s->rcvtimeo ? g.now + s->rcvtimeo : 0;
    bool nb = s->nonblock || (fl & MSG_DONTWAIT);
    for (;;) {
        if (fault(F_RECV_EINTR)) { errno = EINTR; return -1; }
        if (fault(F_RECV_ERR)) { static const int e[3] = {ECONNREFUSED, ENOMEM, EIO}; errno = e[fault_pick(F_RECV_ERR, 3)]; return -1; }
        if (!s->open) { errno = EBADF; return -1; }
        if (!s->q.empty() && s->q.front().at <= g.now && !(fault(F_RECV_TIMEOUT) && (nb || dl) && (errno = EAGAIN))) {
            Dgram d = s->q.front();
            if (!(fl & MSG_PEEK)) s->q.pop_front();
            size_t off = 0;
            for (size_t i = 0; i < ni && off < d.data.size(); i++) {
                size_t k = d.data.size() - off; if (k > iov[i].iov_len) k = iov[i].iov_len;
                g.in_rt--; if (on()) access_range((uptr)iov[i].iov_base, k, true, PC()); g.in_rt++;
                memcpy(iov[i].iov_base, d.data.data() + off, k); off += k;
            }
            bool tr = off < d.data.size();
            if (mflags) *mflags = tr ? MSG_TRUNC : 0;
            if (!(fl & MSG_PEEK)) io().recvd.push_back({d.data, tr});
            return (fl & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)off;
        } else if (!s->q.empty() && s->q.front().at <= g.now) { errno = EAGAIN; return -1; }
        if (nb) { errno = EAGAIN; return -1; }
        if (dl && g.now >= dl) { errno = EAGAIN; return -1; }
        u64 w = dl;
        if (!s->q.empty() && (!w || s->q.front().at < w)) w = s->q.front().at;
        block_current("receive on socket", &s->waitch, w);
    }
}
SIM_EXPORT ssize_t recvmsg(int fd, struct msghdr* m, int fl) { int mf = 0; ssize_t k = do_recv(fd, m->msg_iov, m->msg_iovlen, fl, &mf); if (k >= 0) { m->msg_flags = mf; m->msg_namelen = 0; m->msg_controllen = 0; } return k; }
SIM_EXPORT ssize_t recv(int fd, void* b, size_t n, int fl) { struct iovec v{b, n}; return do_recv(fd, &v, 1, fl, nullptr); }
SIM_EXPORT ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr*, socklen_t*) { struct iovec v{b, n}; return do_recv(fd, &v, 1, fl, nullptr); }
SIM_EXPORT int shutdown(int fd, int) { Rt r; Sfd* s = gsock(fd); if (!s) return -1; wake_all(&s->waitch); return 0; }
REAL(int, poll, struct pollfd*, nfds_t, int)
SIM_EXPORT int poll(struct pollfd* p, nfds_t n, int to) {
    bool any = false; for (nfds_t i = 0; i < n; i++) if (is_sim(p[i].fd)) any = true;
    if (!live() || !any) return real_poll()(p, n, to);
    if (on()) sched_point(75);
    Rt r;
    u64 dl = to < 0 ? ~0ull : g.now + (u64)to * 1000000ull;
    for (;;) {
        if (fault(F_RECV_EINTR)) { errno = EINTR; return -1; }
        int c = 0; u64 nxt = dl; Sfd* w = nullptr;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0; Sfd* s = get(p[i].fd);
            if (!s || !s->open) { p[i].revents = POLLNVAL; c++; continue; }
            if (s->kind != Sfd::SOCK) { p[i].revents = p[i].events & (POLLIN | POLLOUT); if (p[i].revents) c++; continue; }
            w = s;
            if ((p[i].events & POLLIN) && !s->q.empty() && s->q.front().at <= g.now) p[i].revents |= POLLIN;
            if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
            if (p[i].revents) c++;
            if (!s->q.empty() && s->q.front().at < nxt) nxt = s->q.front().at;
        }
        if (c || to == 0) return c;
        if (g.now >= dl) return 0;
        block_current("poll", w ? (void*)&w->waitch : nullptr, nxt == ~0ull ? 0 : nxt);
    }
}
SIM_EXPORT int ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) { return poll(p, n, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }
SIM_EXPORT int select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* t) {
    if (!live()) return (int)real_syscall()(SYS_select, n, rd, wr, ex, t);
    struct pollfd p[64]; nfds_t c = 0; for (int i = 0; i < n && c < 64; i++) { short e = 0; if (rd && FD_ISSET(i, rd)) e |= POLLIN; if (wr && FD_ISSET(i, wr)) e |= POLLOUT; if (e) p[c++] = {i, e, 0}; }
    int to = t ? (int)(t->tv_sec * 1000 + (t->tv_usec + 999) / 1000) : -1; if (!c) { usleep((useconds_t)to * 1000); return 0; }
    int k = poll(p, c, to); if (k < 0) return -1;
    if (rd) FD_ZERO(rd); if (wr) FD_ZERO(wr); if (ex) FD_ZERO(ex); k = 0; for (nfds_t i = 0; i < c; i++) { if (p[i].revents & POLLNVAL) { errno = EBADF; return -1; } if (rd && p[i].revents & POLLIN) { FD_SET(p[i].fd, rd); k++; } if (wr && p[i].revents & POLLOUT) { FD_SET(p[i].fd, wr); k++; } }
    return k;
}
namespace sim {
void net_inject(const std::string& to, const std::string& d, u64 delay) { Rt r; Sfd* t = bound_to(to); if (t) enqueue(t, d, g.now + delay, ""); }
size_t net_pending(const std::string& to) { Rt r; Sfd* t = bound_to(to); return t ? t->q.size() : 0; }
std::vector<Sent>& net_sent() { return io().sent; }
std::vector<Recvd>& net_recvd() { return io().recvd; }
u64 net_attempts() { return io().attempts; }
int net_bound(const std::string& k) { Rt r; int n = 0; for (auto s : io().fds) if (s->open && s->kind == Sfd::SOCK && s->bound == k) n++; return n; }
void net_close_on_idle(bool) {}
}  // namespace sim

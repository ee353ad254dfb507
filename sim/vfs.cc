// In-memory file system and the interposed system-call layer.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string>

Vfs vfs;
static const int FD0 = 1000;

static const struct { const char *n; int e; } errtab[] = {
    {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EINTR", EINTR}, {"EMFILE", EMFILE}, {"EACCES", EACCES},
    {"ENOENT", ENOENT}, {"ENOMEM", ENOMEM}, {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"ESTALE", ESTALE},
    {"EAGAIN", EAGAIN}, {"EBADF", EBADF}, {"EINVAL", EINVAL}, {"ELOOP", ELOOP}};
int errno_by_name(const std::string &s) { for (auto &e : errtab) if (s == e.n) return e.e; return EIO; }
const char *errno_str(int e) { for (auto &t : errtab) if (t.e == e) return t.n; return "EIO"; }

uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15)); r.next(); return r.next(); }

// ------------------------------------------------------------------ Vfs
void Vfs::mkdirs(const std::string &file) {
    for (size_t i = 0; (i = file.find('/', i + 1)) != std::string::npos;) {
        std::string d = file.substr(0, i);
        if (!names.count(d)) { auto n = std::make_shared<Inode>(); n->dir = true; n->mode = 040755; n->ino = next_ino++; names[d] = n; }
    }
}
void Vfs::put(const std::string &p, const Bytes &b, unsigned mode) {
    mkdirs(p);
    auto n = std::make_shared<Inode>(); n->data = b; n->mode = mode; n->ino = next_ino++;
    if ((mode & 0170000) == 040000) n->dir = true;
    names[p] = n;
}
static void w64(std::string &o, uint64_t v) { o.append((const char *)&v, 8); }
static uint64_t r64(const std::string &s, size_t &i) { uint64_t v; memcpy(&v, s.data() + i, 8); i += 8; return v; }
std::string Vfs::dump() {
    std::string o; std::set<uint64_t> done;
    w64(o, next_ino); w64(o, tmp_seq); w64(o, (uint64_t)space); w64(o, names.size());
    for (auto &kv : names) {
        w64(o, kv.first.size()); o += kv.first; w64(o, kv.second->ino);
        bool body = done.insert(kv.second->ino).second;
        w64(o, body);
        if (body) { w64(o, kv.second->mode); w64(o, kv.second->dir); w64(o, kv.second->data.size());
            o.append((const char *)kv.second->data.data(), kv.second->data.size()); }
    }
    w64(o, touched.size());
    for (auto &t : touched) { w64(o, t.size()); o += t; }
    return o;
}
void Vfs::load(const std::string &s) {
    std::map<uint64_t, InodeP> by;
    for (auto &kv : names) by[kv.second->ino] = kv.second;
    for (auto &f : fds) by[f.second.ino->ino] = f.second.ino;
    std::map<std::string, InodeP> nn;
    size_t i = 0;
    next_ino = r64(s, i); tmp_seq = r64(s, i); space = (int64_t)r64(s, i);
    uint64_t n = r64(s, i);
    while (n--) {
        uint64_t l = r64(s, i); std::string nm = s.substr(i, l); i += l;
        uint64_t ino = r64(s, i); bool body = r64(s, i);
        InodeP &p = by[ino];
        if (!p) { p = std::make_shared<Inode>(); p->ino = ino; }
        if (body) { p->mode = (unsigned)r64(s, i); p->dir = r64(s, i); uint64_t sz = r64(s, i);
            p->data.assign(s.begin() + (long)i, s.begin() + (long)(i + sz)); i += sz; }
        nn[nm] = p;
    }
    names.swap(nn);
    n = r64(s, i);
    while (n--) { uint64_t l = r64(s, i); touched.insert(s.substr(i, l)); i += l; }
}
uint64_t Vfs::hash() {
    uint64_t h = 77;
    for (auto &kv : names) { h = fnv(kv.first.data(), kv.first.size(), h); h = fnv(kv.second->data.data(), kv.second->data.size(), h); }
    return h;
}

// external modification of a stored file: "flip PATH POS BIT" | "trunc PATH LEN" | "zero PATH POS LEN" |
// "append PATH SEED N" | "rm PATH" | "copy FROM TO" | "xchg A B" | "dup PATH SRC DST LEN" | "set32 PATH POS VAL" | "hdr PATH ENTRY FIELD VAL"
void vfs_mutate(const std::string &m) {
    char k[32], a[512], b[512]; long long x = 0, y = 0, z = 0;
    if (sscanf(m.c_str(), "%31s %511s", k, a) < 2) return;
    std::string K = k, A = a;
    if (K == "copy" || K == "xchg") {
        if (sscanf(m.c_str(), "%*s %511s %511s", a, b) < 2) return;
        if (!vfs.has(a)) return;
        if (K == "copy") { Bytes d = vfs.get(a); unsigned md = vfs.names[a]->mode; vfs.put(b, d, md); }
        else if (vfs.has(b)) std::swap(vfs.names[a], vfs.names[b]);
        return;
    }
    sscanf(m.c_str(), "%*s %*s %lld %lld %lld", &x, &y, &z);
    if (!vfs.has(A)) return;
    if (K == "rm") { vfs.rm(A); return; }
    Bytes &d = vfs.get(A);
    if (K == "flip") { if (!d.empty()) d[(size_t)x % d.size()] ^= (uint8_t)(1 << (y & 7)); }
    else if (K == "trunc") { if ((size_t)x < d.size()) d.resize((size_t)x); }
    else if (K == "zero") { for (long long i = x; i < x + y && i < (long long)d.size(); i++) d[(size_t)i] = 0; }
    else if (K == "append") { Rng r((uint64_t)x); for (long long i = 0; i < y; i++) d.push_back((uint8_t)r.next()); }
    else if (K == "dup") { for (long long i = 0; i < z && x + i < (long long)d.size() && y + i < (long long)d.size(); i++) d[(size_t)(y + i)] = d[(size_t)(x + i)]; }
    else if (K == "set32") { for (int i = 0; i < 4; i++) if (x + i < (long long)d.size()) d[(size_t)(x + i)] = (uint8_t)((uint64_t)y >> (24 - 8 * i)); }
    else if (K == "hdr") {   // "hdr PATH ENTRY FIELD VALUE": damages index entry ENTRY of the package's main header (entries counted from 1000000: by tag)
        auto w = [&](size_t o) { return o + 4 <= d.size() ? (uint64_t)d[o] << 24 | (uint64_t)d[o + 1] << 16 | (uint64_t)d[o + 2] << 8 | d[o + 3] : 0; };
        size_t o = 96, s = (size_t)(w(o + 8) * 16 + w(o + 12)); o += 16 + (s + 7) / 8 * 8;
        uint64_t n = w(o + 8), hs = w(o + 12);
        if (!n || n > 4096 || o + 16 + n * 16 + hs > d.size()) return;
        size_t e = (size_t)x % n;
        if (x >= 1000000) { for (e = 0; e < n && w(o + 16 + e * 16) != (uint64_t)x - 1000000; e++) ; if (e == n) return; }
        size_t at = o + 16 + e * 16 + 4 * (size_t)(y & 3);
        if (y >= 4) at = (size_t)(o + 16 + n * 16 + w(o + 16 + e * 16 + 8));         // the value itself
        for (size_t i = 0; i < 4 && at + i < d.size(); i++) d[at + i] = (uint8_t)((uint64_t)z >> (24 - 8 * i));
    }
    else if (K == "rand") { Rng r((uint64_t)z); for (long long i = x; i < x + y && i < (long long)d.size(); i++) d[(size_t)i] = (uint8_t)r.next(); }
}

// ------------------------------------------------------------------ system call layer
static std::string norm(const char *p) {
    std::string s = p ? p : "";
    std::string o;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/' && !o.empty() && o.back() == '/') continue; o += s[i]; }
    if (o.empty() || o[0] != '/') o = "/w/" + o;
    // "." components
    size_t q; while ((q = o.find("/./")) != std::string::npos) o.erase(q, 2);
    return o;
}
static int new_fd(InodeP n, int flags, const std::string &p) {
    int fd = FD0; while (vfs.fds.count(fd)) fd++;
    OpenFd f; f.ino = n; f.flags = flags; f.path = p; vfs.fds[fd] = f;
    if (vfs.fds.size() > vfs.peak_fds) vfs.peak_fds = vfs.fds.size();
    return fd;
}
static bool installed(const std::string &p) { return p.compare(0, 3, "/w/") != 0 && p.compare(0, 5, "/tmp/") != 0; }
static bool private_tmp(const std::string &p) { return p.compare(0, 5, "/tmp/") == 0; }
static uint64_t hp(const std::string &s) { return fnv(s.data(), s.size()); }

int v_open(const char *path, int flags, unsigned mode, const char *what) {
    std::string p = norm(path);
    Fault *f = ev(C_OPEN, what, hp(p), (uint64_t)flags); if (installed(p)) { Fault *g = count_fault(C_IFILE); if (!f) f = g; }
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    if ((flags & O_TMPFILE) == O_TMPFILE) {
        auto n = std::make_shared<Inode>(); n->mode = 0100000 | (mode & 0777); n->ino = vfs.next_ino++;
        int fd = new_fd(n, flags & ~O_TMPFILE, "/tmp/drpm-anonymous"); ev_result(fd); return fd;
    }
    auto it = vfs.names.find(p);
    if (it == vfs.names.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; ev_result(-1); return -1; }
        size_t sl = p.rfind('/');
        if (sl > 0) { auto d = vfs.names.find(p.substr(0, sl)); if (d == vfs.names.end() || !d->second->dir) { errno = ENOENT; ev_result(-1); return -1; } }
        auto n = std::make_shared<Inode>(); n->mode = 0100000 | (mode & 0777); n->ino = vfs.next_ino++;
        vfs.names[p] = n; vfs.touched.insert(p);
        if (!(flags & O_EXCL) || (mode & 077)) vfs.shared_create.insert(p);
        it = vfs.names.find(p);
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; ev_result(-1); return -1; }
        if (it->second->dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; ev_result(-1); return -1; }
        if (flags & O_TRUNC) { if (vfs.space >= 0) vfs.space += (int64_t)it->second->data.size(); it->second->data.clear(); vfs.touched.insert(p); }
    }
    int fd = new_fd(it->second, flags, p);
    ev_result(fd);
    return fd;
}
static OpenFd *getfd(int fd) {
    auto it = vfs.fds.find(fd);
    return it == vfs.fds.end() ? nullptr : &it->second;
}
ssize_t v_read(int fd, void *buf, size_t n, int64_t at, const char *what) {
    Fault *f = ev(C_READ, what, (uint64_t)fd, n);
    OpenFd *o = getfd(fd); if (o && installed(o->path)) { Fault *g = count_fault(C_IREAD); if (!f) f = g; }
    if (o && private_tmp(o->path)) { Fault *g = count_fault(C_TMPIO); if (!f) f = g; }
    if (!o || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; ev_result(-1); return -1; }
    if (o->ino->dir) { errno = EISDIR; ev_result(-1); return -1; }
    int64_t off = at >= 0 ? at : o->off;
    size_t have = off < (int64_t)o->ino->data.size() ? o->ino->data.size() - (size_t)off : 0;
    size_t k = n < have ? n : have;
    if (f) {
        if (f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
        if (f->kind == F_EOF) { ev_result(0); return 0; }
        if (f->kind == F_SHORT && k > 1) { size_t s = 1 + (size_t)f->p % (k - 1); k = s; }
    }
    if (k) memcpy(buf, o->ino->data.data() + off, k);
    if (f && f->kind == F_FLIP && k) ((uint8_t *)buf)[((uint64_t)f->p / 8) % k] ^= (uint8_t)(1 << (f->p & 7));
    if (at < 0) o->off += (int64_t)k;
    sim.hash = fnv(buf, k, sim.hash);
    ev_result((int64_t)k);
    return (ssize_t)k;
}
static size_t do_write(OpenFd *o, const uint8_t *b, size_t n, int64_t off) {
    Bytes &d = o->ino->data;
    size_t end = (size_t)off + n;
    if (end > d.size()) {
        if (vfs.space >= 0) {
            size_t grow = end - d.size();
            if ((int64_t)grow > vfs.space) { grow = (size_t)vfs.space; end = d.size() + grow; n = end > (size_t)off ? end - (size_t)off : 0; }
            vfs.space -= (int64_t)grow;
        }
        if (n) d.resize(end);
    }
    if (n) memcpy(d.data() + off, b, n);
    if (n) vfs.touched.insert(o->path);
    return n;
}
[[noreturn]] void crash_now();
ssize_t v_write(int fd, const void *buf, size_t n, int64_t at, const char *what) {
    Fault *f = ev(C_WRITE, what, (uint64_t)fd, n);
    sim.hash = fnv(buf, n, sim.hash);
    OpenFd *o = getfd(fd); if (o && private_tmp(o->path)) { Fault *g = count_fault(C_TMPIO); if (!f) f = g; }
    if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; ev_result(-1); return -1; }
    int64_t off = at >= 0 ? at : (o->flags & O_APPEND) ? (int64_t)o->ino->data.size() : o->off;
    size_t k = n;
    if (f) {
        if (f->kind == F_CRASH) { if (n) do_write(o, (const uint8_t *)buf, (size_t)f->p % (n + 1), off); crash_now(); }
        if (f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
        if (f->kind == F_DIRTYERR) { if (n) do_write(o, (const uint8_t *)buf, (size_t)f->p % (n + 1), off); errno = EIO; ev_result(-1); return -1; }
        if (f->kind == F_SHORT && k > 1) k = 1 + (size_t)f->p % (k - 1);
    }
    if (n && (k = do_write(o, (const uint8_t *)buf, k, off)) == 0) { errno = ENOSPC; ev_result(-1); return -1; }
    if (at < 0) o->off = off + (int64_t)k;
    o->last_w_off = off + (int64_t)k;
    o->written_tail += k;
    ev_result((int64_t)k);
    return (ssize_t)k;
}
int v_close(int fd) {
    Fault *f = ev(C_CLOSE, "close", (uint64_t)fd);
    OpenFd *o = getfd(fd);
    if (!o) { if (fd >= 0) vfs.bad_close++; errno = EBADF; ev_result(-1); return -1; }
    int r = 0;
    if (f && f->kind == F_LOST && o->written_tail > 0) {
        uint64_t lose = 1 + (uint64_t)f->p % o->written_tail;
        if (lose > o->ino->data.size()) lose = o->ino->data.size();
        o->ino->data.resize(o->ino->data.size() - lose);
        errno = EIO; r = -1;
    } else if (f && f->kind == F_ERR) { errno = (int)f->p; r = -1; }
    vfs.fds.erase(fd);
    ev_result(r);
    return r;
}
int64_t v_lseek(int fd, int64_t off, int wh) {
    Fault *f = ev(C_META, "lseek", (uint64_t)fd, (uint64_t)off * 4 + (uint64_t)wh);
    OpenFd *o = getfd(fd); if (o && installed(o->path)) { Fault *g = count_fault(C_IFILE); if (!f) f = g; }
    if (!o) { errno = EBADF; ev_result(-1); return -1; }
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    int64_t n = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->off + off : (int64_t)o->ino->data.size() + off;
    if (n < 0) { errno = EINVAL; ev_result(-1); return -1; }
    o->off = n;
    ev_result(n);
    return n;
}
static void fill(struct stat *st, const InodeP &n) {
    memset(st, 0, sizeof *st);
    st->st_mode = n->mode; st->st_ino = n->ino; st->st_size = (off_t)n->data.size(); st->st_nlink = 1; st->st_dev = 7;
    st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((n->data.size() + 511) / 512);
}
int v_stat(const char *path, struct stat *st, const char *what) {
    std::string p = norm(path);
    Fault *f = ev(C_META, what, hp(p)); if (installed(p)) { Fault *g = count_fault(C_IFILE); if (!f) f = g; }
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    auto it = vfs.names.find(p);
    if (it == vfs.names.end()) { errno = ENOENT; ev_result(-1); return -1; }
    fill(st, it->second); ev_result(0); return 0;
}
int v_fstat(int fd, struct stat *st) {
    Fault *f = ev(C_META, "fstat", (uint64_t)fd);
    OpenFd *o = getfd(fd); if (o && installed(o->path)) { Fault *g = count_fault(C_IFILE); if (!f) f = g; }
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    if (!o) { errno = EBADF; ev_result(-1); return -1; }
    fill(st, o->ino); ev_result(0); return 0;
}
int v_mkstemp(char *tmpl) {
    size_t n = strlen(tmpl);
    if (n < 6 || strcmp(tmpl + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    snprintf(tmpl + n - 6, 7, "s%05llu", (unsigned long long)(vfs.tmp_seq++ % 100000));
    int fd = v_open(tmpl, O_RDWR | O_CREAT | O_EXCL, 0600, "mkstemp");
    return fd;
}
int v_unlink(const char *path) {
    std::string p = norm(path);
    Fault *f = ev(C_UNLINK, "unlink", hp(p));
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    if (!vfs.names.count(p)) { errno = ENOENT; ev_result(-1); return -1; }
    vfs.names.erase(p); vfs.touched.insert(p);
    ev_result(0); return 0;
}
int v_rename(const char *a, const char *b) {
    std::string p = norm(a), q = norm(b);
    Fault *f = ev(C_UNLINK, "rename", hp(p), hp(q));
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    if (!vfs.names.count(p)) { errno = ENOENT; ev_result(-1); return -1; }
    vfs.names[q] = vfs.names[p]; vfs.names.erase(p); vfs.touched.insert(p); vfs.touched.insert(q);
    ev_result(0); return 0;
}
int v_ftruncate(int fd, int64_t len) {
    Fault *f = ev(C_WRITE, "ftruncate", (uint64_t)fd, (uint64_t)len);
    OpenFd *o = getfd(fd);
    if (!o) { errno = EBADF; ev_result(-1); return -1; }
    if (f && f->kind == F_CRASH) crash_now();
    if (f && f->kind == F_ERR) { errno = (int)f->p; ev_result(-1); return -1; }
    o->ino->data.resize((size_t)len); vfs.touched.insert(o->path);
    ev_result(0); return 0;
}

// stdio on top of the VFS (used only for calls made by drpm itself)
static ssize_t ck_read(void *c, char *b, size_t n) { return v_read((int)(intptr_t)c, b, n, -1, "fread"); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t d = 0;
    while (d < n) { ssize_t k = v_write((int)(intptr_t)c, b + d, n - d, -1, "fwrite"); if (k <= 0) return (ssize_t)d == 0 ? 0 : (ssize_t)d; d += (size_t)k; }
    return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *o, int w) { int64_t r = v_lseek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return v_close((int)(intptr_t)c); }
static std::map<FILE *, char *> stdio_bufs;
static std::map<FILE *, int> stdio_fds;
int v_fileno(FILE *f) { auto i = stdio_fds.find(f); return i == stdio_fds.end() ? fileno(f) : i->second; }
int v_dup(int fd) { Fault *f = ev(C_OPEN, "dup", (uint64_t)fd); OpenFd *o = getfd(fd); if (!o) { errno = EBADF; return -1; } if (f && f->kind == F_ERR) { errno = EMFILE; return -1; } OpenFd c = *o; int n = new_fd(c.ino, c.flags, c.path); vfs.fds[n].off = c.off; return n; }
void *v_mmap(void *, size_t n, int, int fd, int64_t off) {
    OpenFd *o = getfd(fd); Fault *f = ev(C_ALLOC, "mmap", (uint64_t)fd, n); if (!o || !n) { errno = EBADF; return MAP_FAILED; } if (f) { errno = ENOMEM; return MAP_FAILED; }
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return p;
    for (size_t i = 0; i < n && (size_t)off + i < o->ino->data.size(); i++) ((uint8_t *)p)[i] = o->ino->data[(size_t)off + i];
    return p;
}
FILE *v_fdopen(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    if (f) stdio_fds[f] = fd;
    if (f && sim.stdio_buf) { char *b = (char *)malloc(sim.stdio_buf); setvbuf(f, b, _IOFBF, sim.stdio_buf); stdio_bufs[f] = b; }
    return f;
}
void v_fclosed(FILE *f) { stdio_fds.erase(f); auto i = stdio_bufs.find(f); if (i != stdio_bufs.end()) { free(i->second); stdio_bufs.erase(i); } }
void vfs_touch(const char *p) { vfs.touched.insert(norm(p)); }
int vfs_fchmod(int fd, unsigned m) { OpenFd *o = getfd(fd); if (!o) { errno = EBADF; return -1; } o->ino->mode = (o->ino->mode & ~07777u) | (m & 07777); vfs.touched.insert(o->path); return 0; }
FILE *v_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = v_open(path, fl, 0666, "fopen");
    if (fd < 0) return nullptr;
    return v_fdopen(fd, mode);
}

// ------------------------------------------------------------------ interposition (drpm and librpmio)
#define VFD(fd) (sim.in_op && ((fd) >= FD0 || (fd) < 0 || (fd) < 1000))
extern "C" {
int open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); unsigned m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0; va_end(ap);
    if (sim.in_op) return v_open(p, fl, m, "open");
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); unsigned m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, unsigned) : 0; va_end(ap);
    if (sim.in_op) return v_open(p, fl, m, "open");
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int creat(const char *p, mode_t m) {
    if (sim.in_op) return v_open(p, O_WRONLY | O_CREAT | O_TRUNC, m, "creat");
    return (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m);
}
int creat64(const char *p, mode_t m) { return creat(p, m); }
ssize_t read(int fd, void *b, size_t n) { if (sim.in_op) return v_read(fd, b, n, -1, "read"); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (sim.in_op) { if (o < 0) { errno = EINVAL; return -1; } return v_read(fd, b, n, o, "pread"); } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { if (sim.in_op) return v_write(fd, b, n, -1, "write"); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (sim.in_op) { if (o < 0) { errno = EINVAL; return -1; } return v_write(fd, b, n, o, "pwrite"); } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { if (sim.in_op) return v_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd) { if (sim.in_op) return v_close(fd); return (int)syscall(SYS_close, fd); }
int stat(const char *p, struct stat *st) { if (sim.in_op) return v_stat(p, st, "stat"); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { if (sim.in_op) return v_stat(p, st, "lstat"); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) { if (sim.in_op) return v_fstat(fd, st); return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int mkstemp(char *t) { if (sim.in_op) return v_mkstemp(t); return -1; }
int mkstemp64(char *t) { return mkstemp(t); }
int mkostemp(char *t, int) { return mkstemp(t); }
int unlink(const char *p) { if (sim.in_op) return v_unlink(p); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rename(const char *a, const char *b) { if (sim.in_op) return v_rename(a, b); return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int ftruncate(int fd, off_t l) { if (sim.in_op) return v_ftruncate(fd, l); return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }
int fsync(int fd) {
    if (sim.in_op) { Fault *f = ev(C_META, "fsync", (uint64_t)fd); int r = 0; if (f && f->kind == F_ERR) { errno = (int)f->p; r = -1; } ev_result(r); return r; }
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int access(const char *p, int m) {
    if (sim.in_op) { struct stat st; return v_stat(p, &st, "access"); }
    return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (sim.in_op && fd >= FD0) { if (cmd == F_GETFL) { OpenFd *o = getfd(fd); return o ? o->flags : -1; } return 0; }
    return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, a);
}
}

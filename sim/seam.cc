// Seams between drpm and everything outside it: allocator, compression libraries, librpm handles, rpmdb, processes.
// drpm's object code is relinked so that its undefined symbols point at the sim_* functions below.
#include <sanitizer/asan_interface.h>
#include "sim.h"
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <deque>
#include <set>
#include <fcntl.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <signal.h>
#include <semaphore.h>
#include <sys/time.h>
#include <time.h>
#include <memory>
#include <sys/mman.h>
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
#include <lzlib.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmts.h>
#include <rpm/rpmdb.h>
#include <rpm/rpmio.h>

Sim sim;
const char *cls_name[C_N] = {"alloc", "open", "read", "write", "close", "meta", "unlink", "lib", "proc", "db", "hash", "iread", "ifile", "tmpio", "tick", "any"};
const char *fkind_name[F_KN] = {"null", "err", "short", "eof", "flip", "lost", "dirtyerr", "mem", "child", "nodb", "crash", "full", "mut"};

void vfs_mutate(const std::string &m);
void vfs_touch(const char *p);
int vfs_fchmod(int fd, unsigned m);

// ------------------------------------------------------------------ events
static char ringbuf[64][160]; static unsigned ringpos;
void dump_ring(FILE *f) {
    for (unsigned i = ringpos > 48 ? ringpos - 48 : 0; i < ringpos; i++) fprintf(f, "  %s\n", ringbuf[i % 64]);
}
[[noreturn]] void crash_now() {
    if (!sim.in_crash_child) sim_die("internal", "crash fault outside a crash incarnation");
    sim.in_op = false;
    sim.fired[F_CRASH]++;
    std::string d = vfs.dump();
    uint64_t hdr[4 + F_KN] = {1, sim.hash, sim.total_steps, sim.cnt[C_ANY]};
    for (int i = 0; i < F_KN; i++) hdr[4 + i] = sim.fired[i];
    d.insert(0, std::string((char *)hdr, sizeof hdr));
    size_t o = 0;
    while (o < d.size()) { ssize_t k = write(sim.crash_fd, d.data() + o, d.size() - o); if (k <= 0) _exit(78); o += (size_t)k; }
    _exit(42);
}
Fault *ev(int cls, const char *what, uint64_t a, uint64_t b) {
    sim.step++; sim.total_steps++;
    if (sim.step > sim.budget) sim_die("hang", std::string("operation exceeded its step budget at ") + what);
    uint64_t n = sim.cnt[cls]++, m = sim.cnt[C_ANY]++;
    uint64_t v[5] = {(uint64_t)cls, n, a, b, (uint64_t)sim.cur_op};
    sim.hash = fnv(v, sizeof v, sim.hash);
    snprintf(ringbuf[ringpos++ % 64], 160, "op%d #%llu %s[%llu] %s a=%llx b=%llx", sim.cur_op, (unsigned long long)m, cls_name[cls], (unsigned long long)n, what, (unsigned long long)a, (unsigned long long)b);
    if (sim.trace) fprintf(stderr, "ev %s\n", ringbuf[(ringpos - 1) % 64]);
    if (sim.fibers) fiber_yield();
    Fault *hit = nullptr;
    for (auto &f : sim.faults) {
        uint64_t k = f.cls == cls ? n : f.cls == C_ANY ? m : ~0ull;
        if (k == ~0ull) continue;
        if (!(k == f.nth || (f.sticky && k > f.nth))) continue;
        if (f.kind == F_CRASH) { if (cls == C_WRITE) hit = &f; else crash_now(); continue; }
        bool first = !f.fired;
        f.fired = true;
        sim.fired[f.kind]++;
        if (f.kind == F_FULL) { if (first) vfs.space = f.p; continue; }
        if (f.kind == F_MUT) { if (first) vfs_mutate(f.s); continue; }
        hit = &f;
    }
    return hit;
}
// things counted by themselves: digest calls (frequent, they never yield), and reads and look-ups of installed files (also counted as reads etc.)
Fault *count_fault(int cls) {
    if (!sim.in_op) return nullptr;
    uint64_t n = sim.cnt[cls]++;
    for (auto &f : sim.faults) if (f.cls == cls && (n == f.nth || (f.sticky && n > f.nth))) { f.fired = true; sim.fired[f.kind]++; return &f; }
    return nullptr;
}
static bool hash_fails() { uint64_t n = sim.cnt[C_HASH]; if (!count_fault(C_HASH)) return false; ev(C_TICK, "digest failure", n); return true; }
void ev_result(int64_t r) {
    sim.hash = fnv(&r, sizeof r, sim.hash);
    if (sim.trace) fprintf(stderr, "   -> %lld\n", (long long)r);
}
void sim_reset_op(int op) {
    memset(sim.cnt, 0, sizeof sim.cnt);
    sim.step = 0; sim.cur_op = op; sim.bbs = 0;
    static const int fills[] = {0xbe, 0x00, 0xff, 0x41, 0x01, 0xbe, 0x5a}; sim.fill = fills[(sim.fill_seed + (uint64_t)(op < 0 ? 0 : op) * 3) % 7];      // what fresh memory holds
}

// ------------------------------------------------------------------ memory
static void led_add(void *p, size_t n) {
    if (!p) return;
    Ledger::A a{n, sim.alloc_seq++, 0};
    sim.led.mem[p] = a; sim.led.bytes += n;
    if (sim.led.bytes > sim.led.peak) sim.led.peak = sim.led.bytes;
    if (Ledger::is_block(n) && ++sim.led.blocks > sim.led.peak_blocks) sim.led.peak_blocks = sim.led.blocks;
}
static void led_del(void *p) {
    auto it = sim.led.mem.find(p);
    if (it != sim.led.mem.end()) { if (Ledger::is_block(it->second.size)) sim.led.blocks--; sim.led.bytes -= it->second.size; sim.led.mem.erase(it); }
}
static bool alloc_fail(const char *what, size_t n) {
    if (!sim.in_op) return false;
    Fault *f = ev(C_ALLOC, what, n);
    if (f && f->kind == F_NULL) { errno = ENOMEM; ev_result(0); return true; }
    if (n > sim.alloc_cap || sim.led.bytes + n > sim.mem_cap) { errno = ENOMEM; ev_result(-2); return true; }
    return false;
}
#define RES_ADD(kind, p) do { if (p) sim.led.res[kind][(void *)(p)]++; } while (0)
static bool res_del(const char *kind, const void *p) {
    auto &m = sim.led.res[kind]; auto it = m.find((void *)p);
    if (it == m.end()) return false;
    if (--it->second == 0) m.erase(it);
    return true;
}
// A freed block stays poisoned for a while, so that whether a later use of it is noticed depends on this run alone (the address
// sanitizer's own quarantine also holds what other runs of this process freed).
struct Held { std::deque<std::pair<void *, size_t>> q; std::set<void *> in; size_t bytes = 0; };
static Held held;
static void hold_free(void *p) {
    if (held.in.count(p)) { held.in.erase(p); free(p); free(p); return; }      // a double free: let the sanitizer name it
    auto it = sim.led.mem.find(p); size_t n = it == sim.led.mem.end() ? 0 : it->second.size; bool hold = n && n <= 262144 && !it->second.cap;
    led_del(p); if (!hold) { free(p); return; }
    memset(p, 0xdd, n); __asan_poison_memory_region(p, n); held.q.push_back({p, n}); held.in.insert(p); held.bytes += n;
    while (held.bytes > (8u << 20)) { auto e = held.q.front(); held.q.pop_front(); held.bytes -= e.second; if (held.in.erase(e.first)) free(e.first); }
}
extern "C" {
void *sim_malloc(size_t n) { if (alloc_fail("malloc", n)) return nullptr; void *p = malloc(n); if (p) memset(p, sim.fill, n < 65536 ? n : 65536); led_add(p, n); return p; }
void *sim_calloc(size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    if (alloc_fail("calloc", a * b)) return nullptr; void *p = calloc(a, b); led_add(p, a * b); return p;
}
void *sim_realloc(void *q, size_t n) {
    if (alloc_fail("realloc", n)) return nullptr;
    auto it = q ? sim.led.mem.find(q) : sim.led.mem.end();
    if (it != sim.led.mem.end() && n > 262144 && n >= it->second.size) {         // big blocks grow in place or by half, as mremap would make cheap
        size_t old = it->second.size, cap = it->second.cap; char *p = (char *)q;
        if (cap < n) { size_t c = n + n / 2; if (!(p = (char *)malloc(c))) { errno = ENOMEM; return nullptr; } memcpy(p, q, old); cap = c; }
        __asan_unpoison_memory_region(p, n); __asan_poison_memory_region(p + n, cap - n); memset(p + old, sim.fill, std::min<size_t>(n - old, 65536));
        led_del(q); if (p != q) free(q); led_add(p, n); sim.led.mem[p].cap = cap; return p;
    }
    if (q && held.in.count(q)) hold_free(q);
    if (q && n && it != sim.led.mem.end() && it->second.size <= 65536 && !it->second.cap) {      // always to another place
        void *p = malloc(n); if (!p) return nullptr; size_t old = it->second.size; memset(p, sim.fill, n); memcpy(p, q, std::min(old, n)); hold_free(q); led_add(p, n); return p;
    }
    void *p = realloc(q, n);
    if (q && (p || n == 0)) led_del(q);
    led_add(p, n); return p;
}
void *sim_reallocarray(void *q, size_t a, size_t b) {
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
    return sim_realloc(q, a * b);
}
void sim_free(void *p) { if (p) { if (sim.in_op) ev(C_TICK, "free"); hold_free(p); } }

char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_posix_memalign(void **r, size_t al, size_t n) { if (alloc_fail("memalign", n)) return ENOMEM; int e = posix_memalign(r, al, n); if (!e) led_add(*r, n); return e; }
void *sim_aligned_alloc(size_t al, size_t n) { if (alloc_fail("aligned_alloc", n)) return nullptr; void *p = aligned_alloc(al, n); led_add(p, n); return p; }
int sim_vasprintf(char **r, const char *f, va_list ap) { if (alloc_fail("asprintf", 1)) return -1; int n = vasprintf(r, f, ap); if (n >= 0) led_add(*r, (size_t)n + 1); return n; }
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }

// ---- stdio
FILE *v_fopen_c(const char *, const char *);
}
FILE *v_fopen(const char *path, const char *mode);
FILE *v_fdopen(int fd, const char *mode);
void v_fclosed(FILE *f);
int v_fileno(FILE *f); int v_dup(int fd); void *v_mmap(void *, size_t, int, int fd, int64_t off);
static bool v_fstat_ok(int fd) { return vfs.fds.count(fd) != 0; }
extern "C" {
FILE *sim_fopen(const char *p, const char *m) { FILE *f = v_fopen(p, m); RES_ADD("FILE", f); return f; }
FILE *sim_fdopen(int fd, const char *m) { FILE *f = v_fdopen(fd, m); RES_ADD("FILE", f); return f; }
int sim_fclose(FILE *f) { res_del("FILE", f); int r = fclose(f); int e = errno; v_fclosed(f); errno = e; return r; }

// ---- libcrypto
int sim_MD5_Init(MD5_CTX *c) { return hash_fails() ? 0 : MD5_Init(c); }
int sim_MD5_Update(MD5_CTX *c, const void *b, size_t n) { return hash_fails() ? 0 : MD5_Update(c, b, n); }
int sim_MD5_Final(unsigned char *d, MD5_CTX *c) { return hash_fails() ? 0 : MD5_Final(d, c); }
int sim_SHA256_Init(SHA256_CTX *c) { return hash_fails() ? 0 : SHA256_Init(c); }
int sim_SHA256_Update(SHA256_CTX *c, const void *b, size_t n) { return hash_fails() ? 0 : SHA256_Update(c, b, n); }
int sim_SHA256_Final(unsigned char *d, SHA256_CTX *c) { return hash_fails() ? 0 : SHA256_Final(d, c); }

// ---- zlib
int sim_deflateInit2_(z_streamp s, int a, int b, int c, int d, int e, const char *v, int z) {
    Fault *f = ev(C_LIB, "deflateInit2"); if (f && f->kind == F_MEM) return Z_MEM_ERROR;
    int r = deflateInit2_(s, a, b, c, d, e, v, z); if (r == Z_OK) RES_ADD("deflate", s); return r;
}
int sim_deflateInit_(z_streamp s, int a, const char *v, int z) {
    Fault *f = ev(C_LIB, "deflateInit"); if (f && f->kind == F_MEM) return Z_MEM_ERROR;
    int r = deflateInit_(s, a, v, z); if (r == Z_OK) RES_ADD("deflate", s); return r;
}
int sim_deflateEnd(z_streamp s) { ev(C_TICK, "deflateEnd"); res_del("deflate", s); return deflateEnd(s); }
int sim_inflateInit2_(z_streamp s, int w, const char *v, int z) {
    Fault *f = ev(C_LIB, "inflateInit2"); if (f && f->kind == F_MEM) return Z_MEM_ERROR;
    int r = inflateInit2_(s, w, v, z); if (r == Z_OK) RES_ADD("inflate", s); return r;
}
int sim_inflate(z_streamp s, int fl) { Fault *f = ev(C_LIB, "inflate"); if (f && f->kind == F_MEM) return Z_MEM_ERROR; return inflate(s, fl); }
int sim_deflate(z_streamp s, int fl) { ev(C_TICK, "deflate"); return deflate(s, fl); }
int sim_inflateEnd(z_streamp s) { ev(C_TICK, "inflateEnd"); res_del("inflate", s); return inflateEnd(s); }
// ---- bzip2
int sim_BZ2_bzCompressInit(bz_stream *s, int a, int b, int c) {
    Fault *f = ev(C_LIB, "BZ2_bzCompressInit"); if (f && f->kind == F_MEM) return BZ_MEM_ERROR;
    int r = BZ2_bzCompressInit(s, a, b, c); if (r == BZ_OK) RES_ADD("bzc", s); return r;
}
int sim_BZ2_bzCompress(bz_stream *s, int a) { ev(C_TICK, "BZ2_bzCompress"); return BZ2_bzCompress(s, a); }
int sim_BZ2_bzCompressEnd(bz_stream *s) { ev(C_TICK, "BZ2_bzCompressEnd"); res_del("bzc", s); return BZ2_bzCompressEnd(s); }
int sim_BZ2_bzDecompressInit(bz_stream *s, int a, int b) {
    Fault *f = ev(C_LIB, "BZ2_bzDecompressInit"); if (f && f->kind == F_MEM) return BZ_MEM_ERROR;
    int r = BZ2_bzDecompressInit(s, a, b); if (r == BZ_OK) RES_ADD("bzd", s); return r;
}
int sim_BZ2_bzDecompress(bz_stream *s) { Fault *f = ev(C_LIB, "BZ2_bzDecompress"); if (f && f->kind == F_MEM) return BZ_MEM_ERROR; return BZ2_bzDecompress(s); }
int sim_BZ2_bzDecompressEnd(bz_stream *s) { ev(C_TICK, "BZ2_bzDecompressEnd"); res_del("bzd", s); return BZ2_bzDecompressEnd(s); }
// ---- lzma
static lzma_ret lz_init(lzma_stream *s, lzma_ret r) { if (r == LZMA_OK && !sim.led.res["lzma"].count(s)) RES_ADD("lzma", s); return r; }
lzma_ret sim_lzma_easy_encoder(lzma_stream *s, uint32_t p, lzma_check c) {
    Fault *f = ev(C_LIB, "lzma_easy_encoder"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lz_init(s, lzma_easy_encoder(s, p, c));
}
lzma_ret sim_lzma_alone_encoder(lzma_stream *s, const lzma_options_lzma *o) {
    Fault *f = ev(C_LIB, "lzma_alone_encoder"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lz_init(s, lzma_alone_encoder(s, o));
}
lzma_ret sim_lzma_auto_decoder(lzma_stream *s, uint64_t m, uint32_t fl) {
    Fault *f = ev(C_LIB, "lzma_auto_decoder"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lz_init(s, lzma_auto_decoder(s, m, fl));
}
lzma_ret sim_lzma_stream_decoder(lzma_stream *s, uint64_t m, uint32_t fl) {
    Fault *f = ev(C_LIB, "lzma_stream_decoder"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lz_init(s, lzma_stream_decoder(s, m, fl));
}
lzma_ret sim_lzma_alone_decoder(lzma_stream *s, uint64_t m) {
    Fault *f = ev(C_LIB, "lzma_alone_decoder"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lz_init(s, lzma_alone_decoder(s, m));
}
lzma_ret sim_lzma_code(lzma_stream *s, lzma_action a) { Fault *f = ev(C_LIB, "lzma_code"); if (f && f->kind == F_MEM) return LZMA_MEM_ERROR; return lzma_code(s, a); }
void sim_lzma_end(lzma_stream *s) { ev(C_TICK, "lzma_end"); res_del("lzma", s); lzma_end(s); }
// ---- zstd
ZSTD_CCtx *sim_ZSTD_createCCtx(void) { Fault *f = ev(C_LIB, "ZSTD_createCCtx"); if (f && f->kind == F_MEM) return nullptr; ZSTD_CCtx *c = ZSTD_createCCtx(); RES_ADD("zstdc", c); return c; }
size_t sim_ZSTD_freeCCtx(ZSTD_CCtx *c) { ev(C_TICK, "ZSTD_freeCCtx"); res_del("zstdc", c); return ZSTD_freeCCtx(c); }
ZSTD_DCtx *sim_ZSTD_createDCtx(void) { Fault *f = ev(C_LIB, "ZSTD_createDCtx"); if (f && f->kind == F_MEM) return nullptr; ZSTD_DCtx *c = ZSTD_createDCtx(); RES_ADD("zstdd", c); return c; }
size_t sim_ZSTD_freeDCtx(ZSTD_DCtx *c) { ev(C_TICK, "ZSTD_freeDCtx"); res_del("zstdd", c); return ZSTD_freeDCtx(c); }
size_t sim_ZSTD_compressStream2(ZSTD_CCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i, ZSTD_EndDirective e) {
    Fault *f = ev(C_LIB, "ZSTD_compressStream2"); if (f && f->kind == F_MEM) return (size_t)-64; return ZSTD_compressStream2(c, o, i, e);
}
size_t sim_ZSTD_decompressStream(ZSTD_DCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i) {
    Fault *f = ev(C_LIB, "ZSTD_decompressStream"); if (f && f->kind == F_MEM) return (size_t)-64; return ZSTD_decompressStream(c, o, i);
}
// ---- lzlib
LZ_Encoder *sim_LZ_compress_open(int a, int b, unsigned long long c) { Fault *f = ev(C_LIB, "LZ_compress_open"); if (f && f->kind == F_MEM) return nullptr; LZ_Encoder *e = LZ_compress_open(a, b, c); RES_ADD("lzc", e); return e; }
int sim_LZ_compress_close(LZ_Encoder *e) { ev(C_TICK, "LZ_compress_close"); res_del("lzc", e); return LZ_compress_close(e); }
LZ_Decoder *sim_LZ_decompress_open(void) { Fault *f = ev(C_LIB, "LZ_decompress_open"); if (f && f->kind == F_MEM) return nullptr; LZ_Decoder *e = LZ_decompress_open(); RES_ADD("lzd", e); return e; }
int sim_LZ_decompress_close(LZ_Decoder *e) { ev(C_TICK, "LZ_decompress_close"); res_del("lzd", e); return LZ_decompress_close(e); }
int sim_LZ_decompress_read(LZ_Decoder *d, uint8_t *b, int n) { ev(C_TICK, "LZ_decompress_read", (uint64_t)n); return LZ_decompress_read(d, b, n); }
int sim_LZ_compress_read(LZ_Encoder *d, uint8_t *b, int n) { ev(C_TICK, "LZ_compress_read", (uint64_t)n); return LZ_compress_read(d, b, n); }

// ---- librpm headers
Header sim_headerRead(FD_t fd, const int m) { Header h = headerRead(fd, m); RES_ADD("header", h); return h; }
Header sim_headerImport(void *b, unsigned n, headerImportFlags fl) { Header h = headerImport(b, n, fl); RES_ADD("header", h); return h; }
Header sim_headerNew(void) { Header h = headerNew(); RES_ADD("header", h); return h; }
Header sim_headerCopy(Header s) { Header h = headerCopy(s); RES_ADD("header", h); return h; }
Header sim_headerLink(Header h) { RES_ADD("header", h); return headerLink(h); }
Header sim_headerReload(Header h, rpmTagVal t) {
    if (h && !res_del("header", h)) sim.led.errors.push_back("headerReload of a header not owned");
    Header n = headerReload(h, t); RES_ADD("header", n); return n;
}
Header sim_headerFree(Header h) {
    if (h && !res_del("header", h)) { sim.led.errors.push_back("headerFree of a header not owned"); return nullptr; }
    return headerFree(h);
}
void *sim_headerExport(Header h, unsigned *n) { unsigned k = 0; void *p = headerExport(h, &k); if (n) *n = k; led_add(p, k); return p; }
char *sim_headerGetAsString(Header h, rpmTagVal t) { char *p = headerGetAsString(h, t); if (p) led_add(p, strlen(p) + 1); return p; }
char *sim_headerFormat(Header h, const char *f, errmsg_t *e) { char *p = headerFormat(h, f, e); if (p) led_add(p, strlen(p) + 1); return p; }
HeaderIterator sim_headerInitIterator(Header h) { HeaderIterator i = headerInitIterator(h); RES_ADD("hiter", i); return i; }
HeaderIterator sim_headerFreeIterator(HeaderIterator i) { res_del("hiter", i); return headerFreeIterator(i); }
static void td_track(rpmtd td) { if (td && td->data && (td->flags & (RPMTD_ALLOCED | RPMTD_PTR_ALLOCED))) RES_ADD("tddata", td->data); }
int sim_headerGet(Header h, rpmTagVal t, rpmtd td, headerGetFlags fl) { int r = headerGet(h, t, td, fl); if (r == 1) td_track(td); return r; }
int sim_headerNext(HeaderIterator i, rpmtd td) { int r = headerNext(i, td); if (r == 1) td_track(td); return r; }
void sim_rpmtdFreeData(rpmtd td) { if (td && td->data && (td->flags & (RPMTD_ALLOCED | RPMTD_PTR_ALLOCED))) res_del("tddata", td->data); rpmtdFreeData(td); }
rpmtd sim_rpmtdNew(void) { rpmtd t = rpmtdNew(); RES_ADD("td", t); return t; }
rpmtd sim_rpmtdFree(rpmtd t) { if (t) res_del("td", t); return rpmtdFree(t); }
FD_t sim_Fopen(const char *p, const char *m) { FD_t f = Fopen(p, m); RES_ADD("FD_t", f); return f; }
int sim_Fclose(FD_t f) { if (f) res_del("FD_t", f); return Fclose(f); }

// ---- rpmdb (stub): a list of installed headers
struct SimIter { std::string name; std::vector<std::pair<rpmTagVal, std::string>> re; size_t pos = 0; Header cur = nullptr; rpmTagVal tag = 0; };
int sim_rpmReadConfigFiles(const char *, const char *) { Fault *f = ev(C_DB, "rpmReadConfigFiles"); return f && f->kind == F_NODB ? -1 : 0; }
rpmts sim_rpmtsCreate(void) { ev(C_TICK, "rpmtsCreate"); void *p = calloc(1, 16); RES_ADD("rpmts", p); return (rpmts)p; }
rpmts sim_rpmtsFree(rpmts t) { if (t) { res_del("rpmts", t); free((void *)t); } return nullptr; }
int sim_rpmtsSetRootDir(rpmts, const char *) { return 0; }
rpmdbMatchIterator sim_rpmtsInitIterator(const rpmts, rpmDbiTagVal tag, const void *key, size_t len) {
    Fault *f = ev(C_DB, "rpmtsInitIterator"); if (f && f->kind == F_NODB) return nullptr;
    auto *i = new SimIter; i->tag = (rpmTagVal)tag; i->name = key ? (len ? std::string((const char *)key, len) : std::string((const char *)key)) : "";
    RES_ADD("rpmdbiter", i);
    return (rpmdbMatchIterator)i;
}
int sim_rpmdbSetIteratorRE(rpmdbMatchIterator mi, rpmTagVal t, rpmMireMode, const char *pat) {
    if (!mi || !pat) return 0;
    ((SimIter *)mi)->re.push_back({t, pat}); return 0;
}
Header sim_rpmdbNextIterator(rpmdbMatchIterator mi) {
    Fault *f = ev(C_DB, "rpmdbNextIterator");
    if (!mi) return nullptr;
    SimIter *it = (SimIter *)mi;
    if (it->cur) { headerFree(it->cur); it->cur = nullptr; }
    if (f && f->kind == F_NODB) return nullptr;
    for (; it->pos < sim.db.size(); ) {
        Bytes &b = sim.db[it->pos++];
        Header h = headerImport(b.data(), (unsigned)b.size(), HEADERIMPORT_COPY);
        if (!h) continue;
        bool ok = true;
        if (!it->name.empty()) { const char *n = headerGetString(h, RPMTAG_NAME); ok = n && it->name == n; }
        for (auto &r : it->re) {
            if (!ok) break;
            char *s = headerGetAsString(h, r.first);
            std::string v = s ? s : (r.first == RPMTAG_EPOCH ? "0" : "\x01");
            free(s);
            ok = v == r.second;
        }
        if (ok) { it->cur = h; return h; }
        headerFree(h);
    }
    return nullptr;
}
rpmdbMatchIterator sim_rpmdbFreeIterator(rpmdbMatchIterator mi) {
    if (!mi) return nullptr;
    SimIter *it = (SimIter *)mi;
    if (it->cur) headerFree(it->cur);
    res_del("rpmdbiter", mi); delete it; return nullptr;
}

// ---- helper processes (prelink)
static int child_pipe = -1; static int child_fault = -1; static int child_status = 0; static bool child_pending = false; static uint64_t child_frac = 0;
void sim__exit(int st);
pid_t sim_fork(void) {
    Fault *f = ev(C_PROC, "fork");
    if (f && f->kind == F_CHILD && f->p % 8 == 0) { errno = EAGAIN; ev_result(-1); return -1; }
    child_fault = f && f->kind == F_CHILD ? (int)(f->p % 8) : -1; child_frac = f ? (uint64_t)f->p / 8 : 0;
    int p[2];
    if (pipe(p)) sim_die("internal", "pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); sim.child_of_fork = true; sim.fibers = false; child_pipe = p[1]; return 0; }
    bool io = sim.in_op; sim.in_op = false;
    close(p[1]);
    std::string s; char b[65536]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)k);
    close(p[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    sim.in_op = io;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
    if (!s.empty()) vfs.load(s);
    child_status = child_fault == 3 ? 9 : st; child_pending = true;
    ev_result(777);
    return 777;
}
void sim__exit(int st) {
    if (!sim.child_of_fork) sim_die("exit", "library called _exit in the caller's process");
    sim.in_op = false;
    std::string d = vfs.dump(); size_t o = 0;
    while (o < d.size()) { ssize_t k = write(child_pipe, d.data() + o, d.size() - o); if (k <= 0) break; o += (size_t)k; }
    _exit(st);
}
static int do_exec(const char *path, std::vector<std::string> av) {
    if (!sim.child_of_fork) sim_die("exit", "library called exec in the caller's process");
    std::string out, in;
    for (size_t i = 1; i < av.size(); i++) {
        if (av[i] == "-o" && i + 1 < av.size()) out = av[++i];
        else if (av[i] == "-u" && i + 1 < av.size()) in = av[++i];
    }
    if (child_fault == 1 || !vfs.has(path)) { errno = ENOENT; return -1; }
    if (child_fault == 2 || !vfs.has(in) || out.empty()) sim__exit(1);
    Bytes &src = vfs.get(in); Bytes orig;
    if (src.size() >= 1024 && !memcmp(src.data() + 0x300, "SIMPRELK", 8)) {
        uint32_t n; memcpy(&n, src.data() + 0x308, 4);
        if (1024 + (size_t)n <= src.size()) orig.assign(src.begin() + 1024, src.begin() + 1024 + (long)n);
        else sim__exit(1);
    } else sim__exit(1);
    size_t n = orig.size();
    if (child_fault == 3) n = n ? (size_t)child_frac % n : 0;
    orig.resize(n);
    if (vfs.has(out)) vfs.get(out) = orig; else vfs.put(out, orig, 0100600);
    vfs.touched.insert(out);
    sim__exit(0);
    return -1;
}
int sim_execl(const char *path, const char *a0, ...) {
    std::vector<std::string> av; if (a0) av.push_back(a0);
    va_list ap; va_start(ap, a0); const char *s; while (a0 && (s = va_arg(ap, const char *))) av.push_back(s); va_end(ap);
    return do_exec(path, av);
}
int sim_execv(const char *path, char *const a[]) { std::vector<std::string> av; for (; *a; a++) av.push_back(*a); return do_exec(path, av); }
int sim_execve(const char *path, char *const a[], char *const[]) { return sim_execv(path, a); }
int sim_execvp(const char *path, char *const a[]) { return sim_execv(path, a); }
int sim_execlp(const char *path, const char *a0, ...) {
    std::vector<std::string> av; if (a0) av.push_back(a0);
    va_list ap; va_start(ap, a0); const char *s; while (a0 && (s = va_arg(ap, const char *))) av.push_back(s); va_end(ap);
    return do_exec(path, av);
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) {
    ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = v[i].iov_len ? read(fd, v[i].iov_base, v[i].iov_len) : 0; if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t sim_writev(int fd, const struct iovec *v, int n) {
    ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = v[i].iov_len ? write(fd, v[i].iov_base, v[i].iov_len) : 0; if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
int sim_openat(int, const char *p, int fl, ...) { unsigned m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, unsigned); va_end(a); } return open(p, fl, m); }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_fadvise64(int, off_t, off_t, int) { return 0; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
    char *was = *l; ssize_t r = getdelim(l, n, d, f); if (*l != was) { led_del(was); if (*l) led_add(*l, *n); }
    return r;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
pid_t sim_vfork(void) { return sim_fork(); }
int sim_posix_spawn(pid_t *pid, const char *path, const void *, const void *, char *const a[], char *const[]) { pid_t p = sim_fork(); if (p < 0) return errno; if (p == 0) { sim_execv(path, a); sim__exit(127); } if (pid) *pid = p; return 0; }
int sim_posix_spawnp(pid_t *pid, const char *path, const void *x, const void *y, char *const a[], char *const e[]) { return sim_posix_spawn(pid, path, x, y, a, e); }
pid_t sim_waitpid(pid_t, int *st, int) {
    Fault *f = ev(C_PROC, "waitpid");
    if (f && f->kind == F_ERR) { errno = (int)f->p; if (errno != EINTR) child_pending = false; ev_result(-1); return -1; }     // ECHILD: the caller ignores SIGCHLD
    if (!child_pending) { errno = ECHILD; ev_result(-1); return -1; }
    child_pending = false; if (st) *st = child_status; ev_result(777); return 777;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
pid_t sim_wait4(pid_t p, int *st, int o, struct rusage *) { return sim_waitpid(p, st, o); }
}

// ------------------------------------------------------------------ concurrent callers
// Each caller is a real thread, but exactly one of them holds the token and runs; the plan decides where it is handed over:
// at the N-th event, or a number of basic blocks of drpm code after it (drpm is compiled with -fsanitize-coverage=trace-pc).
struct Task { pthread_t th; sem_t go; bool done = false; std::function<void()> fn; };
static std::vector<std::unique_ptr<Task>> tasks; static sem_t main_go, ready, leave; static thread_local int my_task = -1; static int cur_task = -1;
static std::vector<Preempt> preempt; static size_t pre_pos; static uint64_t switches, bb_left; static bool bb_armed; static RoundRobin rrob; static uint64_t rr_left;
static uint8_t *cov_map; static size_t cov_size; static uintptr_t cov_base;
void cov_init(size_t n, uintptr_t base) { cov_map = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); cov_size = n; cov_base = base; }
void cov_dump(FILE *f) { for (size_t i = 0; i < cov_size; i++) if (cov_map[i]) fprintf(f, "%lx\n", (unsigned long)i); }
size_t cov_count() { size_t k = 0; for (size_t i = 0; i < cov_size; i++) k += cov_map[i]; return k; }
static void give(int to) { cur_task = to; if (to < 0) sem_post(&main_go); else sem_post(&tasks[(size_t)to]->go); }
static void take(int me) { sem_t *s = me < 0 ? &main_go : &tasks[(size_t)me]->go; while (sem_wait(s) != 0) {} }
static int next_alive(int after) {
    for (size_t k = 1; k <= tasks.size(); k++) { size_t i = ((size_t)(after < 0 ? 0 : after) + k) % tasks.size(); if (!tasks[i]->done) return (int)i; }
    return -1;
}
static void hand_over(int to) {
    int me = my_task, e = errno;
    if (me < 0 || to == me || tasks[(size_t)to]->done) return;
    sim.hash = mix64(sim.hash, (uint64_t)to + 17); switches++;
    give(to); take(me); errno = e;
}
static void *task_entry(void *p) {
    my_task = (int)(intptr_t)p; sem_post(&ready); take(my_task);
    tasks[(size_t)my_task]->fn();
    tasks[(size_t)my_task]->done = true; switches++;
    int me = next_alive(my_task); my_task = -1; give(me);
    while (sem_wait(&leave) != 0) {}      // threads start and end only while nothing else runs: another caller may fork
    return nullptr;
}
void fiber_yield() {
    if (my_task < 0 || sim.child_of_fork) return;
    uint64_t e = sim.fiber_events++;
    if (rrob.k && rrob.count && !rrob.blocks && !rrob.statics && e >= rrob.from && (e - rrob.from) % rrob.k == 0) { rrob.count--; int n = next_alive(my_task); if (n >= 0 && n != my_task) hand_over(n); return; }
    if (bb_armed || pre_pos >= preempt.size() || preempt[pre_pos].ev > e) return;
    if (preempt[pre_pos].bb) { bb_armed = true; bb_left = preempt[pre_pos].bb; return; }
    hand_over(preempt[pre_pos++].to % (int)tasks.size());
}
// a task that has to wait for another one (a lock): let the others run
static bool yield_to_other() { int n = my_task < 0 ? -1 : next_alive(my_task); if (n < 0 || n == my_task) return false; hand_over(n); return true; }
extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!sim.in_op) return;
    if (++sim.bbs > sim.bb_budget) sim_die("hang", "operation exceeded its budget of executed basic blocks");
    if (cov_map) { size_t i = ((uintptr_t)__builtin_return_address(0) - cov_base); if (i < cov_size && !cov_map[i]) cov_map[i] = 1; }
    if (!sim.fibers || sim.child_of_fork) return;
    if ((sim.bbs & 0xfffff) == 0) { yield_to_other(); return; }      // a caller that waits in a loop for another one
    if (rrob.blocks && rrob.count && sim.fiber_events >= rrob.from && --rr_left == 0) { rr_left = rrob.k; rrob.count--; int n = next_alive(my_task); if (n >= 0 && n != my_task) hand_over(n); return; }
    if (!bb_armed) return;
    if (--bb_left) return;
    bb_armed = false;
    hand_over(preempt[pre_pos++].to % (int)tasks.size());
}
// Static storage is what callers that work on different files can share. drpm is compiled so that each memory access is a call (ASAN's
// outlined checks); the ones to static storage of the program or of libc are points at which the token may be handed over.
static uintptr_t st_lo[4], st_hi[4]; static int st_n;
static int st_add(dl_phdr_info *i, size_t, void *) {
    const char *n = i->dlpi_name ? i->dlpi_name : ""; if (*n && !strstr(n, "/libc.so")) return 0;
    for (int k = 0; k < i->dlpi_phnum && st_n < 4; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) { st_lo[st_n] = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; st_hi[st_n] = st_lo[st_n] + i->dlpi_phdr[k].p_memsz; st_n++; }
    return 0;
}
static void touch_slow(uintptr_t a) {
    for (int k = 0; k < st_n; k++) if (a >= st_lo[k] && a < st_hi[k]) {
        sim.statics++; if (!sim.fibers || my_task < 0 || sim.child_of_fork) return;
        if (rrob.statics && rrob.count && sim.fiber_events >= rrob.from && --rr_left == 0) { rr_left = rrob.k; rrob.count--; yield_to_other(); }
        return;
    }
}
static inline void touch(const void *p) { if (sim.fibers) touch_slow((uintptr_t)p); }
#define ACC(kind, n) extern "C" void __asan_##kind##n(uintptr_t a); extern "C" void sim___asan_##kind##n(uintptr_t a) { __asan_##kind##n(a); touch((void *)a); }
ACC(load, 1) ACC(load, 2) ACC(load, 4) ACC(load, 8) ACC(load, 16) ACC(store, 1) ACC(store, 2) ACC(store, 4) ACC(store, 8) ACC(store, 16)
#define ACCN(kind) extern "C" void __asan_##kind##N(uintptr_t a, size_t n); extern "C" void sim___asan_##kind##N(uintptr_t a, size_t n) { __asan_##kind##N(a, n); touch((void *)a); }
ACCN(load) ACCN(store)
extern "C" {
#define AROUND2(T, expr, a, b) { touch(a); touch(b); T r_ = expr; touch(a); touch(b); return r_; }
#define AROUND1(T, expr, a) { touch(a); T r_ = expr; touch(a); return r_; }
void *sim_memcpy(void *d, const void *s, size_t n) AROUND2(void *, memcpy(d, s, n), d, s)
void *sim_memmove(void *d, const void *s, size_t n) AROUND2(void *, memmove(d, s, n), d, s)
void *sim_memset(void *d, int c, size_t n) AROUND1(void *, memset(d, c, n), d)
int sim_memcmp(const void *a, const void *b, size_t n) AROUND2(int, memcmp(a, b, n), a, b)
char *sim_strcpy(char *d, const char *s) AROUND2(char *, strcpy(d, s), d, s)
char *sim_stpcpy(char *d, const char *s) AROUND2(char *, stpcpy(d, s), d, s)
char *sim_strncpy(char *d, const char *s, size_t n) AROUND2(char *, strncpy(d, s, n), d, s)
char *sim_strcat(char *d, const char *s) AROUND2(char *, strcat(d, s), d, s)
char *sim_strncat(char *d, const char *s, size_t n) AROUND2(char *, strncat(d, s, n), d, s)
size_t sim_strlen(const char *s) AROUND1(size_t, strlen(s), s)
int sim_strcmp(const char *a, const char *b) AROUND2(int, strcmp(a, b), a, b)
int sim_strncmp(const char *a, const char *b, size_t n) AROUND2(int, strncmp(a, b, n), a, b)
int sim_vsprintf(char *d, const char *f, va_list a) AROUND1(int, vsprintf(d, f, a), d)
int sim_vsnprintf(char *d, size_t n, const char *f, va_list a) AROUND1(int, vsnprintf(d, n, f, a), d)
int sim_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vsprintf(d, f, a); va_end(a); return r; }
int sim_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vsnprintf(d, n, f, a); va_end(a); return r; }
// locks of drpm's own: a caller that has to wait lets the others run
static std::map<const void *, int> once_state;
int sim_pthread_once(pthread_once_t *c, void (*fn)(void)) {
    while (once_state[c] == 1) if (!yield_to_other()) sim_die("hang", "an initialisation is waited for that nobody will finish");
    if (once_state[c] == 0) { once_state[c] = 1; fn(); once_state[c] = 2; }
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!sim.fibers || my_task < 0) return pthread_rwlock_rdlock(l); int r; while ((r = pthread_rwlock_tryrdlock(l)) == EBUSY) if (!yield_to_other()) sim_die("hang", "a lock is waited for that nobody will release"); return r; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!sim.fibers || my_task < 0) return pthread_rwlock_wrlock(l); int r; while ((r = pthread_rwlock_trywrlock(l)) == EBUSY) if (!yield_to_other()) sim_die("hang", "a lock is waited for that nobody will release"); return r; }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!sim.fibers || my_task < 0) return real(m);
    int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) if (!yield_to_other()) sim_die("hang", "a lock is waited for that nobody will release");
    return r;
}
// run all functions to completion; returns the number of switches
uint64_t run_fibers(std::vector<std::function<void()>> fns, const std::vector<Preempt> &pre, const RoundRobin &rr) {
    if (!st_n) dl_iterate_phdr(st_add, nullptr);
    rrob = rr; rr_left = rr.k ? rr.k : 1; tasks.clear(); preempt = pre; pre_pos = 0; switches = 0; sim.fiber_events = 0; bb_armed = false;
    sem_init(&main_go, 0, 0); sem_init(&ready, 0, 0); sem_init(&leave, 0, 0);
    if (fns.empty()) return 0;
    bool io = sim.in_op; sim.in_op = false;
    for (size_t i = 0; i < fns.size(); i++) { tasks.emplace_back(new Task()); tasks[i]->fn = fns[i]; sem_init(&tasks[i]->go, 0, 0); }
    for (size_t i = 0; i < fns.size(); i++) if (pthread_create(&tasks[i]->th, nullptr, task_entry, (void *)(intptr_t)i)) sim_die("internal", "pthread_create");
    for (size_t i = 0; i < fns.size(); i++) while (sem_wait(&ready) != 0) {}
    sim.in_op = io; sim.fibers = true;
    give(0); take(-1);
    sim.fibers = false; sim.in_op = false;
    for (size_t i = 0; i < fns.size(); i++) sem_post(&leave);
    for (auto &t : tasks) pthread_join(t->th, nullptr);
    sim.in_op = io;
    return switches;
}
// ------------------------------------------------------------------ clocks, identities and random numbers drpm itself may ask for
static Rng sim_rng(42); static uint64_t env_clock = 1700000000ull * 1000000000ull;
static uint64_t tick() { env_clock += 1 + sim_rng.below(sim_rng.chance(1, 8) ? 4000000000ull : 2000000ull); if (sim_rng.chance(1, 50)) env_clock -= 3600ull * 1000000000ull; return env_clock; }
void sim_seed_env(uint64_t s) { sim_rng = Rng(s ^ 0xc10c); env_clock = 1700000000ull * 1000000000ull + (s % 1000000) * 1000000000ull; }
extern "C" {
pid_t sim_getpid(void) { return 4242; }
pid_t sim_getppid(void) { return 4000; }
uid_t sim_getuid(void) { return 0; }
uid_t sim_geteuid(void) { return 0; }
time_t sim_time(time_t *t) { ev(C_TICK, "time"); time_t v = (time_t)(tick() / 1000000000ull); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { ev(C_TICK, "gettimeofday"); uint64_t v = tick(); if (tv) { tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (suseconds_t)(v % 1000000000ull / 1000); } return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { ev(C_TICK, "clock_gettime"); uint64_t v = tick(); ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0; }
clock_t sim_clock(void) { return (clock_t)(tick() / 1000); }
int sim_rand(void) { return (int)(sim_rng.next() & 0x7fffffff); }
void sim_srand(unsigned) {}
long sim_random(void) { return (long)(sim_rng.next() & 0x7fffffff); }
void sim_srandom(unsigned) {}
int sim_rand_r(unsigned *) { return sim_rand(); }
double sim_drand48(void) { return (double)(sim_rng.next() >> 11) / 9007199254740992.0; }
long sim_lrand48(void) { return sim_random(); }
unsigned sim_arc4random(void) { return (unsigned)sim_rng.next(); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)sim_rng.next(); return (ssize_t)n; }
int sim_usleep(useconds_t) { ev(C_TICK, "usleep"); return 0; }
unsigned sim_sleep(unsigned) { ev(C_TICK, "sleep"); return 0; }
int sim_nanosleep(const struct timespec *, struct timespec *) { ev(C_TICK, "nanosleep"); return 0; }
int sim_sched_yield(void) { ev(C_TICK, "sched_yield"); return 0; }
char *sim_getenv(const char *) { return nullptr; }
FILE *sim_tmpfile(void) { char t[] = "/tmp/drpmtmpf.XXXXXX"; int fd = mkstemp(t); if (fd < 0) return nullptr; unlink(t); FILE *f = v_fdopen(fd, "w+"); RES_ADD("FILE", f); return f; }
char *sim_mktemp(char *t) { size_t n = strlen(t); if (n >= 6) snprintf(t + n - 6, 7, "m%05llu", (unsigned long long)(vfs.tmp_seq++ % 100000)); return t; }
int sim_chmod(const char *p, mode_t m) { struct stat st; if (stat(p, &st)) return -1; vfs_touch(p); (void)m; return 0; }
int sim_fchmod(int fd, mode_t m) { Fault *f = ev(C_META, "fchmod", (uint64_t)fd, m); if (f && f->kind == F_ERR) { errno = (int)f->p; return -1; } return vfs_fchmod(fd, m); }
int sim_mkdir(const char *p, mode_t) { ev(C_META, "mkdir"); vfs_touch(p); errno = EACCES; return -1; }
int sim_rmdir(const char *p) { ev(C_META, "rmdir"); vfs_touch(p); errno = EACCES; return -1; }
int sim_symlink(const char *, const char *p) { ev(C_META, "symlink"); vfs_touch(p); errno = EACCES; return -1; }
int sim_link(const char *, const char *p) { ev(C_META, "link"); vfs_touch(p); errno = EACCES; return -1; }
int sim_fileno(FILE *f) { return v_fileno(f); }
int sim_fileno_unlocked(FILE *f) { return v_fileno(f); }
int sim_dup(int fd) { return v_dup(fd); }
int sim_fstatat(int fd, const char *p, struct stat *st, int fl) { return *p || !(fl & AT_EMPTY_PATH) ? fl & AT_SYMLINK_NOFOLLOW ? lstat(p, st) : stat(p, st) : fstat(fd, st); }
int sim_fstatat64(int fd, const char *p, struct stat *st, int fl) { return sim_fstatat(fd, p, st, fl); }
int sim_unlinkat(int, const char *p, int) { return unlink(p); }
int sim_renameat(int, const char *a, int, const char *b) { return rename(a, b); }
int sim_faccessat(int, const char *p, int m, int) { return access(p, m); }
int sim_posix_fallocate(int fd, off_t, off_t) { return v_fstat_ok(fd) ? 0 : EBADF; }
int sim_posix_fallocate64(int fd, off_t, off_t) { return v_fstat_ok(fd) ? 0 : EBADF; }
int sim_fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sim_flock(int, int) { return 0; }
int sim_lockf(int, int, off_t) { return 0; }
ssize_t sim_sendfile(int, int, off_t *, size_t) { errno = EINVAL; return -1; }
ssize_t sim_sendfile64(int, int, off_t *, size_t) { errno = EINVAL; return -1; }
ssize_t sim_copy_file_range(int, off_t *, int, off_t *, size_t, unsigned) { errno = EXDEV; return -1; }
void *sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) { void *p = fd < 0 ? mmap(a, n, pr, fl, fd, off) : v_mmap(a, n, pr, fd, off); if (p != MAP_FAILED) RES_ADD("mapping", p); return p; }
void *sim_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t off) { return sim_mmap(a, n, pr, fl, fd, off); }
int sim_munmap(void *a, size_t n) { res_del("mapping", a); return munmap(a, n); }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { if (fd <= 2) return vdprintf(fd, fmt, ap); char *s = nullptr; int n = vasprintf(&s, fmt, ap); if (n < 0) return n; ssize_t k = 0, w; while (k < n && (w = write(fd, s + k, (size_t)(n - k))) > 0) k += w; free(s); return k < n ? -1 : n; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vdprintf(fd, fmt, ap); va_end(ap); return n; }
ssize_t sim_readlink(const char *p, char *, size_t) { struct stat st; if (stat(p, &st) == 0) errno = EINVAL; return -1; }
int sim_remove(const char *p) { return unlink(p); }
int sim_truncate(const char *p, off_t n) { int fd = open(p, O_WRONLY); if (fd < 0) return -1; int r = ftruncate(fd, n); close(fd); return r; }
}
void sim_free_c(void *p) { sim_free(p); }
int sim_children_unawaited() { int n = child_pending; child_pending = false; return n; }

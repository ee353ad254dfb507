// drpm deterministic simulator: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <sys/types.h>
#include <sys/stat.h>

typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {                     // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

// ------------------------------------------------------------------ fault model
enum Cls { C_ALLOC, C_OPEN, C_READ, C_WRITE, C_CLOSE, C_META, C_UNLINK, C_LIB, C_PROC, C_DB, C_HASH, C_IREAD, C_IFILE, C_TMPIO, C_TICK, C_ANY, C_N };
extern const char *cls_name[C_N];

enum FKind {
    F_NULL,      // allocation failure
    F_ERR,       // call fails, errno = param
    F_SHORT,     // short read/write: param bytes (at least 1 less than asked)
    F_EOF,       // read returns 0
    F_FLIP,      // one stored byte read back wrong (param selects byte/bit)
    F_LOST,      // close() fails and the last param bytes written through it are lost
    F_DIRTYERR,  // write puts param bytes on disk and then fails
    F_MEM,       // library memory error
    F_CHILD,     // helper child process fails (param: kind)
    F_NODB,      // rpmdb entry unavailable
    F_CRASH,     // process dies here; an in-flight write is torn at param bytes
    F_FULL,      // from here on the disk accepts only param more bytes
    F_MUT,       // another process modifies a file here (sim.muts[param])
    F_KN
};
extern const char *fkind_name[F_KN];

struct Fault {
    int op = 0; int cls = 0; uint64_t nth = 0; int kind = 0; int64_t p = 0; bool sticky = false;
    bool fired = false;
    std::string s;      // F_MUT: description of the mutation
};

// ------------------------------------------------------------------ VFS
struct Inode { Bytes data; unsigned mode = 0; uint64_t ino = 0; bool dir = false; };
typedef std::shared_ptr<Inode> InodeP;
struct OpenFd { InodeP ino; int64_t off = 0; int flags = 0; std::string path; uint64_t written_tail = 0; int64_t last_w_off = -1; };
struct Vfs {
    std::map<std::string, InodeP> names;
    std::map<int, OpenFd> fds;
    uint64_t next_ino = 1;
    uint64_t tmp_seq = 0;
    int64_t space = -1;                       // bytes left on the disk, -1 unlimited
    std::set<std::string> shared_create;      // names created without O_EXCL, or readable by others (until cleared)
    std::set<std::string> touched;            // names created/truncated/removed/written (until cleared)
    uint64_t bad_close = 0;
    size_t peak_fds = 0;                      // most descriptors open at once
    void put(const std::string &p, const Bytes &b, unsigned mode = 0100644);
    bool has(const std::string &p) { return names.count(p) != 0; }
    Bytes &get(const std::string &p) { return names[p]->data; }
    void mkdirs(const std::string &file);
    void rm(const std::string &p) { names.erase(p); }
    std::string dump();
    void load(const std::string &s);
    uint64_t hash();
};
extern Vfs vfs;
int errno_by_name(const std::string &);
const char *errno_str(int);

// ------------------------------------------------------------------ simulator state
struct Ledger {
    struct A { size_t size; uint64_t seq; int kind; size_t cap = 0; };      // cap: room of a big growing block (the rest is poisoned)
    std::map<void *, A> mem;                  // live malloc'ed blocks owned by drpm
    std::map<std::string, std::map<void *, int64_t>> res;   // live library resources by kind
    std::vector<std::string> errors;          // e.g. release of something not owned
    size_t bytes = 0, peak = 0, blocks = 0, peak_blocks = 0;   // blocks: live allocations the size of one cached block
    static bool is_block(size_t n) { return n >= 8192 && n <= 8320; }
    void clear() { mem.clear(); res.clear(); errors.clear(); bytes = peak = blocks = peak_blocks = 0; }
};

struct Sim {
    bool in_op = false;
    int cur_op = -1;
    uint64_t cnt[C_N];
    uint64_t step = 0, total_steps = 0;
    uint64_t budget = 4000000;
    uint64_t hash = 1469598103934665603ull;
    size_t alloc_cap = 768u << 20;
    size_t mem_cap = 2048ull << 20;
    std::vector<Fault> faults;                // for the current op
    uint64_t fired[F_KN];
    uint64_t alloc_seq = 0;
    bool trace = false;
    Ledger led;
    std::vector<std::string> evring;          // last events (when trace)
    int fork_mode = 0;                        // 0 none
    bool in_crash_child = false;
    int crash_fd = -1;
    bool child_of_fork = false;
    // fibers
    uint64_t fill_seed = 0; int fill = 0xbe;
    size_t stdio_buf = 0;                     // buffer size given to stdio streams (0: the C library's own)
    uint64_t bbs = 0, bb_budget = 6000000000ull;   // basic blocks of drpm executed by the current operation
    bool fibers = false;
    uint64_t fiber_events = 0, statics = 0;
    // rpmdb stub
    std::vector<Bytes> db;                    // exported headers of installed packages (without magic)
    bool prelink_installed = false;
    uint64_t probes[64];
};
extern Sim sim;
enum Probe { P_PAGE_WRITE, P_PAGE_READ, P_EVICT_FILE, P_PRELINK, P_CRASHED, P_NPROBE };

// returns the fault to apply at this event, or nullptr
Fault *count_fault(int cls);
Fault *ev(int cls, const char *what, uint64_t a = 0, uint64_t b = 0);
void ev_result(int64_t r);
void sim_reset_op(int op);
[[noreturn]] void sim_die(const char *cls, const std::string &msg);   // report violation & exit
void fiber_yield();
struct Preempt { uint64_t ev; uint64_t bb; int to; };    // bb basic blocks after event ev, hand over to task `to`
// round robin: from event `from` on, `count` times, the token goes to the next caller after every `k` events (or basic blocks, or accesses of drpm to static storage)
struct RoundRobin { bool blocks = false, statics = false; uint64_t k = 0, from = 0, count = 0; };
uint64_t run_fibers(std::vector<std::function<void()>> fns, const std::vector<Preempt> &pre, const RoundRobin &rr);
void cov_init(size_t n, uintptr_t base);
size_t cov_count(); void cov_dump(FILE *);
void sim_seed_env(uint64_t seed);

void vio(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

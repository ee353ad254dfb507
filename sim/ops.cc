// Execution of a plan inside the simulator, and the oracles.
#include "ops.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" {
#include <drpm.h>
unsigned drpm_sim_max_open_files = 50, drpm_sim_max_core_blocks = 5000;
}

int result_fd = -1;
static std::string cur_check; static int cur_op_index = -1; static std::string cur_op_desc;
static bool verbose_child = false;
static std::map<std::string, uint64_t> notes_;
void note(const char *w, uint64_t n) { notes_[w] += n; }

static void raw_write(const std::string &s) { bool io = sim.in_op; sim.in_op = false; size_t o = 0; while (o < s.size()) { ssize_t k = write(result_fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; } sim.in_op = io; }
static std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
static void emit_common(std::string &o) {
    char b[256];
    snprintf(b, sizeof b, "H\t%llu\t%llu\t%llu\n", (unsigned long long)sim.hash, (unsigned long long)vfs.hash(), (unsigned long long)sim.total_steps); o += b;
    for (int i = 0; i < F_KN; i++) if (sim.fired[i]) { snprintf(b, sizeof b, "F\t%d\t%llu\n", i, (unsigned long long)sim.fired[i]); o += b; }
    for (auto &n : notes_) o += "N\t" + n.first + "\t" + std::to_string(n.second) + "\n";
}
[[noreturn]] static void finish_violation(const std::string &cls, const std::string &msg) {
    sim.in_op = false;
    std::string o = "V\t" + cls + "\t" + oneline("op " + std::to_string(cur_op_index) + " (" + cur_op_desc + "): " + msg) + "\n";
    emit_common(o); raw_write(o);
    if (verbose_child) { dump_ring(stderr); fflush(stderr); }
    _exit(77);
}
void sim_die(const char *cls, const std::string &msg) {
    sim.in_op = false;
    if (!strcmp(cls, "internal")) { raw_write("I\t" + oneline(msg) + "\n"); _exit(78); }
    finish_violation(cls, msg);
}
static bool tagged(const char *tags) { return strstr(tags, cur_check.c_str()) != nullptr; }
static void viol(const char *tags, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void viol(const char *tags, const char *cls, const char *fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!tagged(tags) && getenv("DRPM_SIM_OTHER") && !strcmp(getenv("DRPM_SIM_OTHER"), cls)) finish_violation(cls, b);
    if (!tagged(tags)) { note((std::string("other:") + cls).c_str()); return; }
    finish_violation(cls, b);
}
static std::string func_at(void *pc) { char f[256] = "?"; __sanitizer_symbolize_pc(pc, "%f", f, sizeof f); return f; }
extern "C" void __asan_on_error() {
    static bool again = false; if (again) return; again = true;
    sim.in_op = false;
    const char *d = __asan_get_report_description();
    std::string w = func_at(__asan_get_report_pc());
    std::string cls = std::string("crash:") + (d ? d : "error");
    // find a drpm frame for the message
    void *st[40]; std::string fr; (void)st;
    if (verbose_child) { std::string o = "V\t" + cls + "\t" + oneline("op " + std::to_string(cur_op_index) + " (" + cur_op_desc + "): memory error in " + w) + "\n"; emit_common(o); raw_write(o); dump_ring(stderr); return; }
    finish_violation(cls, "memory error in " + w);
}
extern "C" void __asan_on_error_dummy() {}
static void on_cpu(int) { sim.in_op = false; finish_violation("hang", "operation did not finish (CPU limit)"); }
static void on_abort(int) { sim.in_op = false; finish_violation("crash:abort", "abort called"); }
static int cpu_limit(const Plan &p) { uint64_t n = 0; for (auto &s : p.rpms) for (auto &f : s.files) n += f.c.size; return 25 + (int)(n * (p.ops.size() + 1) / 1000000); }
static void arm_cpu(int sec) {
    struct itimerval t = {{0, 0}, {sec, 0}}; signal(SIGPROF, on_cpu); setitimer(ITIMER_PROF, &t, nullptr);
}

// ------------------------------------------------------------------ plan text
std::string plan_text(const Plan &p) {
    char b[256]; snprintf(b, sizeof b, "plan check=%s seed=%llu core=%u files=%u\n", p.check.c_str(), (unsigned long long)p.seed, p.core, p.files);
    std::string s = b; for (auto &r : p.rpms) s += spec_text(r);
    for (auto &o : p.ops) { s += "op " + o.kind; for (auto &kv : o.a) s += " " + kv.first + "=" + esc(kv.second); s += "\n"; }
    for (auto &f : p.faults) {
        std::string pv = f.kind == F_ERR ? errno_str((int)f.p) : std::to_string(f.p);
        snprintf(b, sizeof b, "fault op=%d cls=%s nth=%llu kind=%s p=%s sticky=%d", f.op, cls_name[f.cls], (unsigned long long)f.nth, fkind_name[f.kind], pv.c_str(), f.sticky); s += b;
        if (!f.s.empty()) s += " s=" + esc(f.s);
        s += "\n";
    }
    return s;
}
bool plan_parse(const std::string &t, Plan &p) {
    p = Plan(); bool have = false;
    for (auto &line : split(t, '\n')) {
        auto tok = split(line); if (tok.empty() || tok[0][0] == '#') continue;
        if (tok[0] == "plan") { for (size_t i = 1; i < tok.size(); i++) { auto e = tok[i].find('='); if (e == std::string::npos) return false; std::string k = tok[i].substr(0, e), v = tok[i].substr(e + 1); if (k == "check") p.check = v; else if (k == "seed") p.seed = strtoull(v.c_str(), nullptr, 10); else if (k == "core") p.core = (unsigned)atoi(v.c_str()); else if (k == "files") p.files = (unsigned)atoi(v.c_str()); } have = true; }
        else if (tok[0] == "rpm") { RpmSpec r; if (!spec_parse(tok, r)) return false; p.rpms.push_back(r); }
        else if (tok[0] == "file") { FileSpec f; std::string id; for (auto &x : tok) if (x.compare(0, 4, "rpm=") == 0) id = x.substr(4); if (!file_parse(tok, f)) return false; for (auto &r : p.rpms) if (r.id == id) r.files.push_back(f); }
        else if (tok[0] == "op") { if (tok.size() < 2) return false; Op o; o.kind = tok[1]; for (size_t i = 2; i < tok.size(); i++) { auto e = tok[i].find('='); if (e == std::string::npos) return false; o.a[tok[i].substr(0, e)] = unesc(tok[i].substr(e + 1)); } p.ops.push_back(o); }
        else if (tok[0] == "fault") {
            Fault f; for (size_t i = 1; i < tok.size(); i++) { auto e = tok[i].find('='); if (e == std::string::npos) return false; std::string k = tok[i].substr(0, e), v = tok[i].substr(e + 1);
                if (k == "op") f.op = atoi(v.c_str()); else if (k == "cls") { for (int c = 0; c < C_N; c++) if (v == cls_name[c]) f.cls = c; } else if (k == "nth") f.nth = strtoull(v.c_str(), nullptr, 10);
                else if (k == "kind") { for (int c = 0; c < F_KN; c++) if (v == fkind_name[c]) f.kind = c; } else if (k == "p") f.p = f.kind == F_ERR ? errno_by_name(v) : strtoll(v.c_str(), nullptr, 10); else if (k == "sticky") f.sticky = v == "1"; else if (k == "s") f.s = unesc(v); }
            p.faults.push_back(f);
        } else return false;
    }
    return have;
}

// ------------------------------------------------------------------ the simulated world
struct Truth { std::string old_id, new_id; int type = 0, ver = 3; Bytes bytes; bool valid = false, nomd5 = false; std::set<size_t> skip; };   // skip: files of the old package the patch lists exclude
static std::map<std::string, BuiltRpm> built; static std::map<std::string, RpmSpec> specs; static std::map<std::string, RefRpm> refs;
static std::map<std::string, Truth> truth;                  // by path of the delta
static std::map<std::string, Altered> altered_;
static const RefRpm &ref_of(const std::string &id) { auto i = refs.find(id); if (i == refs.end()) i = refs.emplace(id, ref_rpm(built[id].rpm)).first; return i->second; }
static const Altered &alt_of(const std::string &id, const std::set<size_t> &skip = {}) { std::string k = id; for (auto x : skip) k += " " + std::to_string(x); auto i = altered_.find(k); if (i == altered_.end()) i = altered_.emplace(k, ref_alter(ref_of(id), skip)).first; return i->second; }
static const Altered &alt_truth(const Truth &t, const std::string &id) { return id == t.old_id ? alt_of(id, t.skip) : alt_of(id); }   // as far as the delta needs package `id`
struct ListFile { Bytes bytes; RList l; }; static std::map<std::string, ListFile> lists;            // patch lists of the world, by path
static std::string path_of(const Op &o, const char *k, const char *ext) { std::string v = o.g(k); if (v.empty() || v == "-") return ""; return v[0] == '/' ? v : "/w/" + v + ext; }
static bool pristine_rpm(const std::string &id) { std::string p = "/w/" + id + ".rpm"; return built.count(id) && vfs.has(p) && vfs.get(p) == built[id].rpm; }
static std::string seq_id(const std::string &nevr, const Bytes &seq) { return nevr + "-" + hex(seq.data(), seq.size()); }

// model of what reading an installed file yields (first `size` bytes of the original, if it can be had)
static std::map<std::string, Bytes> pre_pristine;   // prelinked images as installed
static bool fs_unsure;                              // a damaged prelinked image: whether it can be undone is prelink's business
static bool fs_content(const std::string &path, size_t size, Bytes &out) {
    if (!vfs.has(path)) return false;
    const Bytes &b = vfs.get(path);
    if (b.size() == size) { out = b; return true; }
    if (b.size() < size) return false;
    if (b.size() >= 1024 && !memcmp(b.data() + 0x300, "SIMPRELK", 8)) {
        if (!vfs.has("/usr/sbin/prelink")) return false;
        auto pp = pre_pristine.find(path); if (pp == pre_pristine.end() || pp->second != b) fs_unsure = true;
        uint32_t n; memcpy(&n, b.data() + 0x308, 4); if (1024 + (size_t)n > b.size() || n < size) return false;
        out.assign(b.begin() + 1024, b.begin() + 1024 + (long)size); return true;
    }
    out.assign(b.begin(), b.begin() + (long)size); return true;
}
// The installed package a name stands for, as rpm looks it up: a name without an epoch fits every epoch, an absent epoch is epoch 0.
static std::string installed_id(const std::string &want_id) {
    const RpmSpec &w = specs[want_id]; std::string other;
    for (auto &b : sim.db) for (auto &kv : built) if (kv.second.headerblob == b) {
        const RpmSpec &s = specs[kv.first]; if (s.name != w.name || s.ver != w.ver || s.rel != w.rel) continue;
        if (kv.second.nevr == built[want_id].nevr) return kv.first;
        if (w.epoch < 0 || (w.epoch == 0 && s.epoch < 0)) other = kv.first;
    }
    return other;
}
// which needed files of an installed package no longer have the packaged content (FULL) / size (FILESIZES)
static bool fs_intact(const std::string &id, const Altered &a, bool full) {
    const RefRpm &r = ref_of(id);
    for (auto i : a.order) {
        const RFile &f = r.files[i]; if ((f.mode & 0170000) != 0100000 || !f.size) continue;
        if (!vfs.has(f.name)) return false;
        if (!full && vfs.get(f.name).size() == f.size) continue;
        const Bytes &raw = vfs.get(f.name);
        if (!full) {                                    // larger file: only acceptable when prelinked, then compared in full
            if (raw.size() < f.size) return false;
            if (!(raw.size() >= 1024 && !memcmp(raw.data() + 0x300, "SIMPRELK", 8))) return false;
        }
        Bytes c; if (!fs_content(f.name, f.size, c)) return false;
        uint8_t d[32]; std::string h; if (r.digest == 8) { sha256(c.data(), c.size(), d); h = hex(d, 32); } else { md5(c.data(), c.size(), d); h = hex(d, 16); }
        if (h != f.digest) return false;
    }
    return true;
}
static const char *rcname(int rc) { static const char *n[] = {"OK", "MEMORY", "ARGS", "IO", "FORMAT", "CONFIG", "OTHER", "OVERFLOW", "PROG", "MISMATCH", "NOINSTALL"}; return rc >= 0 && rc <= 10 ? n[rc] : "undocumented"; }

// ------------------------------------------------------------------ options objects
struct OptModel { bool rpmonly = false; int ver = 3; bool from_rpm = true; int comp = 65535, lvl = 0; bool addblk = true; int acomp = 2, alvl = 0; std::string seq; bool seqset = false; std::string pp, pq; };
static int comp_by_name(const std::string &s) { static const char *n[] = {"none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"}; for (int i = 0; i < 7; i++) if (s == n[i]) return i; return 99; }
// script: comma separated setter calls; applied to the object and to the model
static void opt_script(const std::string &script, drpm_make_options **o, drpm_make_options **spare, OptModel &m, OptModel &ms, std::vector<std::string> &errs) {
    auto bad = [&](const std::string &w, int rc) { errs.push_back(w + " returned " + rcname(rc)); };
    for (auto &t : split(script, ',')) {
        auto v = split(t, ':'); int rc; std::string k = v[0]; int x = v.size() > 1 ? atoi(v[1].c_str()) : 0, y = v.size() > 2 ? atoi(v[2].c_str()) : 0;
        if (k == "type") { rc = drpm_make_options_set_type(*o, (unsigned short)x); bool ok = x == 0 || x == 1; if (ok) m.rpmonly = x == 1; if (rc != (ok ? 0 : 2)) bad(t, rc); }
        else if (k == "ver") { rc = drpm_make_options_set_version(*o, (unsigned short)x); bool ok = x >= 1 && x <= 3; if (ok) m.ver = x; if (rc != (ok ? 0 : 2)) bad(t, rc); }
        else if (k == "comp") { rc = drpm_make_options_set_delta_comp(*o, (unsigned short)x, (unsigned short)y); bool ok = x >= 0 && x <= 6 && y >= 0 && y <= 9; if (ok) { m.from_rpm = false; m.comp = x; m.lvl = y; } if (rc != (ok ? 0 : 2)) bad(t, rc); }
        else if (k == "fromrpm") { rc = drpm_make_options_get_delta_comp_from_rpm(*o); m.from_rpm = true; if (rc) bad(t, rc); }
        else if (k == "noadd") { rc = drpm_make_options_forbid_addblk(*o); m.addblk = false; if (rc) bad(t, rc); }
        else if (k == "acomp") { rc = drpm_make_options_set_addblk_comp(*o, (unsigned short)x, (unsigned short)y); bool ok = x >= 0 && x <= 6 && y >= 0 && y <= 9; if (ok) { m.addblk = true; m.acomp = x; m.alvl = y; } if (rc != (ok ? 0 : 2)) bad(t, rc); }
        else if (k == "seq") { const char *s = v.size() > 1 ? v[1].c_str() : nullptr; uint64_t f0 = sim.fired[F_NULL]; rc = drpm_make_options_set_seqfile(*o, s); if (rc == 0) { m.seqset = s != nullptr; m.seq = s ? s : ""; } else if (!(rc == 1 && sim.fired[F_NULL] > f0)) bad(t, rc); }
        else if (k == "lists") { std::string p = v.size() > 2 ? v[1] : "", q = v.size() > 2 ? v[2] : ""; uint64_t f0 = sim.fired[F_NULL]; rc = drpm_make_options_add_patches(*o, p.c_str(), q.c_str()); if (rc == 0) { m.pp = p; m.pq = q; } else if (!(rc == 1 && sim.fired[F_NULL] > f0)) bad(t, rc); }
        else if (k == "defaults") { rc = drpm_make_options_defaults(*o); m = OptModel(); if (rc) bad(t, rc); }
        else if (k == "copyout" || k == "copyin") {       // copy to / from the spare object
            if (!*spare) { if (drpm_make_options_init(spare) != 0) { *spare = nullptr; continue; } ms = OptModel(); }
            uint64_t f0 = sim.fired[F_NULL]; bool out = k == "copyout";
            rc = out ? drpm_make_options_copy(*spare, *o) : drpm_make_options_copy(*o, *spare);
            if (rc == 0) { if (out) ms = m; else m = ms; }
            else if (rc == 1 && sim.fired[F_NULL] > f0) { OptModel &d = out ? ms : m, &s = out ? m : ms; std::string q = d.seq; bool qs = d.seqset; (void)q; (void)qs; d = s; if (out) { drpm_make_options_destroy(spare); *spare = nullptr; } else { drpm_make_options_defaults(*o); m = OptModel(); } }
            else bad(t, rc);
        }
        else if (k == "selfcopy") { rc = 0; }
        else if (k == "null") {
            drpm_make_options *none = nullptr;
            if (drpm_make_options_set_type(none, 0) != 2 || drpm_make_options_set_version(none, 3) != 2 || drpm_make_options_set_delta_comp(none, 1, 0) != 2 || drpm_make_options_get_delta_comp_from_rpm(none) != 2 || drpm_make_options_forbid_addblk(none) != 2 ||
                drpm_make_options_set_addblk_comp(none, 2, 0) != 2 || drpm_make_options_set_seqfile(none, "x") != 2 || drpm_make_options_add_patches(none, "a", "b") != 2 || drpm_make_options_defaults(none) != 2 ||
                drpm_make_options_copy(none, *o) != 2 || drpm_make_options_copy(*o, none) != 2 || drpm_make_options_init(nullptr) != 2 || drpm_make_options_destroy(nullptr) != 2 || drpm_make_options_destroy(&none) != 2 || drpm_make_options_add_patches(*o, nullptr, "x") != 2)
                errs.push_back("a NULL argument was not answered with DRPM_ERR_ARGS");
        }
    }
}

// ------------------------------------------------------------------ raw library calls
struct ReadFacts { bool got = false; std::map<std::string, std::string> str; std::map<std::string, uint64_t> num; std::map<std::string, std::vector<uint64_t>> arr; std::vector<std::string> errs; };
struct OpOut { ReadFacts rf; OptModel model; bool model_used = false; std::vector<std::string> errs; };

static void read_all(drpm *d, ReadFacts &r) {
    static const struct { int t; const char *n; } S[] = {{DRPM_TAG_FILENAME, "filename"}, {DRPM_TAG_SEQUENCE, "sequence"}, {DRPM_TAG_SRCNEVR, "srcnevr"}, {DRPM_TAG_TGTNEVR, "tgtnevr"}, {DRPM_TAG_TGTMD5, "tgtmd5"}, {DRPM_TAG_TGTCOMPPARAM, "compparam"}, {DRPM_TAG_TGTLEAD, "lead"}};
    for (auto &s : S) { char *v = nullptr; int rc = drpm_get_string(d, s.t, &v); if (rc) r.errs.push_back(std::string(s.n) + ":" + rcname(rc)); else if (v) { r.str[s.n] = v; } else r.str[s.n] = "(null)"; if (!rc && v) { extern void sim_release(void *); sim_release(v); } }
    static const struct { int t; const char *n; int w; } N[] = {{DRPM_TAG_VERSION, "version", 3}, {DRPM_TAG_TYPE, "type", 3}, {DRPM_TAG_COMP, "comp", 3}, {DRPM_TAG_TGTSIZE, "tgtsize", 3}, {DRPM_TAG_TGTCOMP, "tgtcomp", 3}, {DRPM_TAG_TGTHEADERLEN, "hdrlen", 2}, {DRPM_TAG_PAYLOADFMTOFF, "pfo", 2}, {DRPM_TAG_EXTDATALEN, "extlen", 1}, {DRPM_TAG_INTDATALEN, "intlen", 1}};
    for (auto &s : N) {
        unsigned long long q = 0; int rc = drpm_get_ullong(d, s.t, &q); if (rc) r.errs.push_back(std::string(s.n) + ":" + rcname(rc)); r.num[s.n] = q;
        unsigned long l = 0; rc = drpm_get_ulong(d, s.t, &l); if (s.w >= 2 ? rc != 0 || l != q : rc != DRPM_ERR_ARGS) r.errs.push_back(std::string(s.n) + " disagrees between get_ulong and get_ullong");
        unsigned u = 0; rc = drpm_get_uint(d, s.t, &u); if (s.w >= 3 ? rc != 0 || u != (unsigned)q : rc != DRPM_ERR_ARGS) r.errs.push_back(std::string(s.n) + " disagrees between get_uint and get_ullong");
    }
    static const struct { int t; const char *n; } A[] = {{DRPM_TAG_ADJELEMS, "adj"}, {DRPM_TAG_INTCOPIES, "ints"}, {DRPM_TAG_EXTCOPIES, "exts"}};
    for (auto &s : A) { unsigned long *v = nullptr, n = 0; int rc = drpm_get_ulong_array(d, s.t, &v, &n); if (rc) r.errs.push_back(std::string(s.n) + ":" + rcname(rc)); else { r.arr[s.n].assign(v, v + n); if (v) { extern void sim_release(void *); sim_release(v); } } }
    char *junk; unsigned u; unsigned long *ja, jn; unsigned long ul; unsigned long long ull;
    if (drpm_get_string(d, DRPM_TAG_VERSION, &junk) != DRPM_ERR_ARGS || drpm_get_uint(d, DRPM_TAG_SEQUENCE, &u) != DRPM_ERR_ARGS || drpm_get_ulong_array(d, DRPM_TAG_TYPE, &ja, &jn) != DRPM_ERR_ARGS || drpm_get_ulong(d, DRPM_TAG_TGTMD5, &ul) != DRPM_ERR_ARGS || drpm_get_ullong(d, 1234, &ull) != DRPM_ERR_ARGS)
        r.errs.push_back("a wrong tag was not answered with DRPM_ERR_ARGS");
    r.got = true;
}
static int misuse(const Op &o, OpOut &out);
static int perform(const Op &o, OpOut &out) {
    if (o.kind == "make") {
        std::string a = path_of(o, "old", ".rpm"), b = path_of(o, "new", ".rpm"), d = path_of(o, "out", ".drpm"), sq = path_of(o, "seq", ".seq");
        drpm_make_options *op = nullptr, *spare = nullptr; int rc;
        if (o.n("noopts")) return drpm_make(a.empty() ? nullptr : a.c_str(), b.empty() ? nullptr : b.c_str(), d.c_str(), nullptr);
        if ((rc = drpm_make_options_init(&op)) != 0) return rc;
        OptModel ms;
        if (o.a.count("script")) { out.model_used = true; opt_script(o.g("script"), &op, &spare, out.model, ms, out.errs); rc = 0; }
        else {
            if (o.g("type") == "rpm") rc = drpm_make_options_set_type(op, DRPM_TYPE_RPMONLY);
            if (!rc && o.n("ver", 3) != 3) rc = drpm_make_options_set_version(op, (unsigned short)o.n("ver", 3));
            if (!rc && o.a.count("comp")) rc = drpm_make_options_set_delta_comp(op, (unsigned short)comp_by_name(o.g("comp")), (unsigned short)o.n("lvl"));
            if (!rc && o.n("noadd")) rc = drpm_make_options_forbid_addblk(op);
            if (!rc && o.a.count("acomp")) rc = drpm_make_options_set_addblk_comp(op, (unsigned short)comp_by_name(o.g("acomp")), (unsigned short)o.n("alvl"));
            if (!rc && !sq.empty()) rc = drpm_make_options_set_seqfile(op, sq.c_str());
            if (!rc && o.a.count("pp") && o.a.count("pq")) rc = drpm_make_options_add_patches(op, o.g("pp").c_str(), o.g("pq").c_str());
        }
        if (!rc) rc = drpm_make(a.empty() ? nullptr : a.c_str(), b.empty() ? nullptr : b.c_str(), d.c_str(), op);
        drpm_make_options_destroy(&op);
        if (op) out.errs.push_back("options pointer not cleared");
        if (spare) drpm_make_options_destroy(&spare);
        return rc;
    }
    if (o.kind == "apply") { std::string a = path_of(o, "old", ".rpm"), d = path_of(o, "delta", ".drpm"), n = path_of(o, "out", ".out"); return drpm_apply(a.empty() ? nullptr : a.c_str(), d.c_str(), n.c_str()); }
    if (o.kind == "check") { std::string d = path_of(o, "delta", ".drpm"); return drpm_check(d.c_str(), (int)o.n("mode", 1)); }
    if (o.kind == "chkseq") { std::string a = path_of(o, "old", ".rpm"); return drpm_check_sequence(a.empty() ? nullptr : a.c_str(), o.g("text").c_str(), (int)o.n("mode")); }
    if (o.kind == "read") {
        std::string d = path_of(o, "delta", ".drpm"); drpm *h = nullptr; int rc = drpm_read(&h, d.c_str());
        if (rc == 0 && !h) { out.errs.push_back("OK without an object"); return rc; }
        if (rc && h) out.errs.push_back("object returned together with an error");
        if (rc == 0) { read_all(h, out.rf); int r2 = drpm_destroy(&h); if (r2 || h) out.errs.push_back("drpm_destroy failed"); }
        return rc;
    }
    if (o.kind == "misuse") return misuse(o, out);
    return -1;
}
// Calls that cannot mean anything: each must be answered with DRPM_ERR_ARGS
static int misuse(const Op &o, OpOut &out) {
    std::string a = path_of(o, "old", ".rpm"), d = path_of(o, "delta", ".drpm"), n = "/w/never-created"; const char *A = a.c_str(), *D = d.c_str(), *N = n.c_str();
    auto want = [&](const char *what, int rc) { if (rc != DRPM_ERR_ARGS) out.errs.push_back(std::string(what) + " was answered with " + rcname(rc)); };
    Rng q((uint64_t)o.n("seed")); int bad = (int[]){-1, 3, 4, 100, -2147483647}[q.below(5)]; drpm_make_options *op = nullptr; drpm *h = nullptr, *none = nullptr;
    char *s = nullptr; unsigned u = 0; unsigned long ul = 0, *ua = nullptr; unsigned long long ull = 0;
    want("drpm_make without packages", drpm_make(nullptr, nullptr, N, nullptr)); want("drpm_make without a delta name", drpm_make(A, A, nullptr, nullptr));
    want("drpm_apply without a delta", drpm_apply(A, nullptr, N)); want("drpm_apply without a target", drpm_apply(A, D, nullptr)); want("drpm_apply from the filesystem without a delta", drpm_apply(nullptr, nullptr, N));
    want("drpm_check without a delta", drpm_check(nullptr, DRPM_CHECK_FULL)); want("drpm_check without a mode", drpm_check(D, DRPM_CHECK_NONE)); want("drpm_check with an unknown mode", drpm_check(D, bad));
    want("drpm_check_sequence without a sequence", drpm_check_sequence(nullptr, nullptr, DRPM_CHECK_FULL)); want("drpm_check_sequence with an unknown mode", drpm_check_sequence(nullptr, "a-1-1-00", bad));
    want("drpm_check_sequence of a package with file checks", drpm_check_sequence(A, "a-1-1-00", q.chance(1, 2) ? DRPM_CHECK_FULL : DRPM_CHECK_FILESIZES));
    want("drpm_read without a name", drpm_read(&h, nullptr)); want("drpm_read without an object", drpm_read(nullptr, D)); want("drpm_destroy of nothing", drpm_destroy(nullptr)); want("drpm_destroy of no object", drpm_destroy(&none));
    want("drpm_get_uint of no object", drpm_get_uint(nullptr, DRPM_TAG_VERSION, &u)); want("drpm_get_ulong of no object", drpm_get_ulong(nullptr, DRPM_TAG_VERSION, &ul)); want("drpm_get_ullong of no object", drpm_get_ullong(nullptr, DRPM_TAG_VERSION, &ull));
    want("drpm_get_string of no object", drpm_get_string(nullptr, DRPM_TAG_FILENAME, &s)); want("drpm_get_ulong_array of no object", drpm_get_ulong_array(nullptr, DRPM_TAG_INTCOPIES, &ua, &ul));
    if (drpm_read(&h, D) == 0) {
        want("drpm_get_uint into nothing", drpm_get_uint(h, DRPM_TAG_VERSION, nullptr)); want("drpm_get_ulong into nothing", drpm_get_ulong(h, DRPM_TAG_VERSION, nullptr)); want("drpm_get_ullong into nothing", drpm_get_ullong(h, DRPM_TAG_VERSION, nullptr));
        want("drpm_get_string into nothing", drpm_get_string(h, DRPM_TAG_FILENAME, nullptr)); want("drpm_get_ulong_array into nothing", drpm_get_ulong_array(h, DRPM_TAG_INTCOPIES, nullptr, &ul)); want("drpm_get_ulong_array without a size", drpm_get_ulong_array(h, DRPM_TAG_INTCOPIES, &ua, nullptr));
        if (drpm_destroy(&h) || h) out.errs.push_back("drpm_destroy failed"); want("a second drpm_destroy", drpm_destroy(&h));
    }
    want("options_init of nothing", drpm_make_options_init(nullptr)); want("options_destroy of nothing", drpm_make_options_destroy(nullptr)); want("options_destroy of no options", drpm_make_options_destroy(&op)); want("options_defaults of nothing", drpm_make_options_defaults(nullptr));
    want("options_set_type of nothing", drpm_make_options_set_type(nullptr, 0)); want("options_set_version of nothing", drpm_make_options_set_version(nullptr, 3)); want("options_set_delta_comp of nothing", drpm_make_options_set_delta_comp(nullptr, 1, 1));
    want("options_get_delta_comp_from_rpm of nothing", drpm_make_options_get_delta_comp_from_rpm(nullptr)); want("options_forbid_addblk of nothing", drpm_make_options_forbid_addblk(nullptr)); want("options_set_addblk_comp of nothing", drpm_make_options_set_addblk_comp(nullptr, 1, 1));
    want("options_set_seqfile of nothing", drpm_make_options_set_seqfile(nullptr, "x")); want("options_add_patches of nothing", drpm_make_options_add_patches(nullptr, "x", "y"));
    if (drpm_make_options_init(&op) == 0) {
        want("options_copy to nothing", drpm_make_options_copy(nullptr, op)); want("options_copy from nothing", drpm_make_options_copy(op, nullptr)); want("options_add_patches without a print", drpm_make_options_add_patches(op, nullptr, "y")); want("options_add_patches without a list", drpm_make_options_add_patches(op, "x", nullptr));
        if (drpm_make_options_destroy(&op) || op) out.errs.push_back("drpm_make_options_destroy failed");
    }
    if (vfs.has(n)) out.errs.push_back("a refused call created its output");
    return 0;
}
static bool is_lib(const std::string &k) { return k == "misuse" || k == "make" || k == "apply" || k == "check" || k == "chkseq" || k == "read"; }
static std::set<std::string> outputs_of(const Op &o) {
    std::set<std::string> s; if (o.kind == "make") { s.insert(path_of(o, "out", ".drpm")); std::string q = path_of(o, "seq", ".seq"); if (!q.empty()) s.insert(q); }
    if (o.kind == "apply") s.insert(path_of(o, "out", ".out"));
    return s;
}

// ------------------------------------------------------------------ oracles
enum Exp { EXP_ANY, EXP_OK, EXP_ERR };
struct Before { std::map<std::string, Bytes> in; bool pristine_old = false, pristine_new = false; Exp fs_full = EXP_ANY, fs_size = EXP_ANY; std::string inst; bool inst_other = false, delta_pristine = false; Truth t; bool has_truth = false; Bytes delta; Bytes pp, pq; bool has_pp = false, has_pq = false; std::set<std::string> names; bool seq_existed = false; };

static void snapshot(const Op &o, Before &b) {
    std::string oi = o.g("old"), ni = o.g("new");
    b.pristine_old = pristine_rpm(oi); b.pristine_new = pristine_rpm(ni);
    for (auto &kv : vfs.names) b.names.insert(kv.first);
    auto grab = [&](const char *k, Bytes &to, bool &has) { std::string p = o.g(k); if (!p.empty() && vfs.has(p)) { to = vfs.get(p); has = true; } }; grab("pp", b.pp, b.has_pp); grab("pq", b.pq, b.has_pq);
    std::string d = path_of(o, "delta", ".drpm");
    if (!d.empty() && vfs.has(d)) {
        b.delta = vfs.get(d);
        auto it = truth.find(d); if (it != truth.end()) { b.t = it->second; b.has_truth = true; }
        b.delta_pristine = b.has_truth && b.t.bytes == b.delta;
        if (!b.delta_pristine) for (auto &kv : truth) if (kv.second.valid && kv.second.bytes == b.delta) { b.t = kv.second; b.has_truth = b.delta_pristine = true; }
    }
    bool fs = (o.kind == "apply" && (oi.empty() || oi == "-")) || o.kind == "check" || (o.kind == "chkseq" && (oi.empty() || oi == "-"));
    if (fs && b.has_truth) {
        b.inst = installed_id(b.t.old_id); b.inst_other = !b.inst.empty() && built[b.inst].nevr != built[b.t.old_id].nevr;
        if (!b.inst.empty()) { auto look = [&](bool full) { fs_unsure = false; bool ok = fs_intact(b.inst, alt_truth(b.t, b.inst), full); if (b.inst != b.t.old_id && !b.t.skip.empty()) return EXP_ANY; return !ok ? EXP_ERR : fs_unsure ? EXP_ANY : EXP_OK; }; b.fs_full = look(true); b.fs_size = look(false); }
    }
}
// What the patch lists of a make operation say. EXP_OK: `skip` are the excluded files; EXP_ERR: they must be refused with `code`; EXP_ANY: no claim.
static Exp read_lists(const std::string &pp, const std::string &pq, const Before &b, const std::string &src, std::set<size_t> &skip, int &code) {
    code = -1; const RefRpm &so = ref_of(src);
    auto cut = [&](const std::string &p, const Bytes &now) { auto i = lists.find(p); return i != lists.end() && now.size() < i->second.bytes.size() && std::equal(now.begin(), now.end(), i->second.bytes.begin()) && now.size() < i->second.bytes.size() - 40; };
    auto q = lists.find(pq), p = lists.find(pp); RList pl;
    if (!b.has_pq) { code = DRPM_ERR_IO; return EXP_ERR; }
    if (cut(pq, b.pq)) { code = DRPM_ERR_FORMAT; return EXP_ERR; }
    if (q == lists.end() || q->second.bytes != b.pq) return EXP_ANY;
    if (!b.has_pp) { code = DRPM_ERR_IO; return EXP_ERR; }
    if (cut(pp, b.pp)) { code = DRPM_ERR_FORMAT; return EXP_ERR; }
    if (p != lists.end()) { if (p->second.bytes != b.pp) return EXP_ANY; pl = p->second.l; }
    else {                                           // a package in the place of the print
        std::string id; for (auto &kv : built) if (kv.second.rpm == b.pp) id = kv.first; if (id.empty()) return EXP_ANY;
        const RefRpm &r = ref_of(id); pl.nevr = r.nevr;
        for (auto &f : r.files) { RList::E e; e.name = !f.name.empty() && f.name[0] == '/' ? f.name.substr(1) : f.name; e.unpatched = f.flags & 1024; pl.e.push_back(e); if (!f.digest.empty() && (f.digest.size() != 32 || f.digest.find_first_not_of("0123456789abcdef") != std::string::npos)) { code = DRPM_ERR_FORMAT; return EXP_ERR; } }
    }
    if (pl.nevr != so.nevr || q->second.l.nevr != so.nevr) { code = DRPM_ERR_ARGS; return EXP_ERR; }
    skip = ref_excluded(so, pl, q->second.l); return EXP_OK;
}
static Exp expect_make(const Op &o, const Before &b) {
    std::string oi = o.g("old"), ni = o.g("new"); bool alone = oi.empty() || oi == "-" || ni.empty() || ni == "-";
    std::string tgt = ni.empty() || ni == "-" ? oi : ni, src = oi.empty() || oi == "-" ? ni : oi;
    bool rpmonly = o.g("type") == "rpm"; int ver = (int)o.n("ver", 3);
    if (o.n("noopts")) { rpmonly = false; ver = 3; }
    if (alone ? !(b.pristine_old || b.pristine_new) : !(b.pristine_old && b.pristine_new)) return EXP_ANY;
    if (rpmonly && ver < 3) return EXP_ERR;
    const RpmSpec &t = specs[tgt], &s = specs[src];
    if (t.fmt != "cpio" && !(rpmonly && alone)) return EXP_ERR;      // an rpm-only identity delta does not look at the payload
    if (s.fmt != "cpio" && !alone) return EXP_ANY;
    if (t.flagless || t.comp == "none" || s.comp == "none") return EXP_ANY;
    if (t.comp == "lzip" || s.comp == "lzip") return EXP_ANY;
    if (rpmonly && !s.sigmd5) return EXP_ANY;
    if (!rpmonly && !alt_of(src).ok) return EXP_ANY;
    return EXP_OK;
}
static void judge_make(const Op &o, int rc, OpOut &out, const Before &b, bool faulted) {
    std::string oi = o.g("old"), ni = o.g("new"); if (oi == "-") oi = ""; if (ni == "-") ni = "";
    std::string tgt = ni.empty() ? oi : ni, src = oi.empty() ? ni : oi;
    std::string d = path_of(o, "out", ".drpm"), sq = path_of(o, "seq", ".seq");
    bool rpmonly = o.g("type") == "rpm"; int ver = (int)o.n("ver", 3); if (o.n("noopts")) { rpmonly = false; ver = 3; }
    Exp e = expect_make(o, b); std::string pp = o.g("pp"), pq = o.g("pq"); if (o.n("noopts") || pq.empty()) pp = ""; if (out.model_used) { pp = out.model.pp; pq = out.model.pq; }
    bool clean = (oi.empty() || b.pristine_old) && (ni.empty() || b.pristine_new);
    if (faulted && (sim.fired[F_FLIP] || sim.fired[F_EOF] || sim.fired[F_MUT])) clean = false;      // the bytes drpm saw were not the packages
    if (out.model_used) {
        rpmonly = out.model.rpmonly; ver = out.model.ver; sq = out.model.seqset ? (out.model.seq[0] == '/' ? out.model.seq : "/w/" + out.model.seq) : "";
        e = clean ? ((rpmonly && ver < 3) || (specs[tgt].fmt != "cpio" && !(rpmonly && (oi.empty() || ni.empty()))) ? EXP_ERR : e == EXP_OK || e == EXP_ERR ? EXP_OK : e) : EXP_ANY;
        for (auto &m : out.errs) viol("C13", "options-setter", "%s", m.c_str());
    }
    for (auto &m : out.errs) viol("C04 C13", "options-api", "%s", m.c_str());
    std::set<size_t> skip; bool unknown_lists = false;
    if (!pp.empty() && !rpmonly && clean) {
        Before b2 = b; if (out.model_used) { b2.has_pp = vfs.has(pp); b2.has_pq = vfs.has(pq); if (b2.has_pp) b2.pp = vfs.get(pp); if (b2.has_pq) b2.pq = vfs.get(pq); }
        int code; Exp le = read_lists(pp, pq, b2, src, skip, code); unknown_lists = le == EXP_ANY; note(le == EXP_OK ? skip.empty() ? "lists_exclude_nothing" : "lists_exclude_files" : le == EXP_ERR ? "lists_unusable" : "lists_damaged");
        if (le == EXP_ERR && rc == 0) viol("C16 C13", "lists-accepted", "patch lists that %s were accepted", code == DRPM_ERR_ARGS ? "belong to another package" : code == DRPM_ERR_IO ? "do not exist" : "are incomplete or malformed");
        if (le == EXP_ERR && rc && !faulted && e == EXP_OK && rc != code) viol("C16", "lists-code", "patch lists had to be refused with %s, the answer is %s", rcname(code), rcname(rc));
        if (le != EXP_OK && e == EXP_OK) e = EXP_ANY;
        if (!skip.empty() && !alt_of(src, skip).ok) e = EXP_ANY;
    }
    if (!faulted && clean) {
        if (e == EXP_OK && rc) viol("C01 C03 C06 C07 C09 C11 C12 C13 C16", "make-failed", "drpm_make returned %s for well-formed packages without any fault", rcname(rc));
        if (e == EXP_ERR && rc == 0) viol("C01 C13", "make-accepted", specs[tgt].fmt != "cpio" ? "a package whose payload is not a cpio archive was accepted" : "an rpm-only delta of version %d was accepted", ver);
    }
    note(rc ? "make_err" : "make_ok");
    truth.erase(d);
    if (rc) return;
    if (!clean) return;                          // inputs were changed under our feet; only safety is claimed
    Truth t; t.old_id = src; t.new_id = tgt; t.type = rpmonly; t.ver = ver; t.skip = skip;
    if (!vfs.has(d)) { viol("C01 C03", "no-delta", "drpm_make reported success but the delta file does not exist"); return; }
    t.bytes = vfs.get(d); t.valid = true; truth[d] = t;
    const char *T = "C01 C03 C12 C13 C16";
    RefDelta rd = ref_delta(t.bytes);
    if (!rd.ok) { viol(T, "delta-malformed", "drpm_make reported success but the delta is not well-formed: %s", rd.why.c_str()); return; }
    if (!rd.sig_ok) viol(T, "delta-malformed", "signature stored in the delta does not match it");
    if (rd.type != (int)rpmonly || rd.ver != ver) viol("C01 C03 C13 C12", "delta-kind", "delta is type %d version %d, asked for type %d version %d", rd.type, rd.ver, (int)rpmonly, ver);
    const RefRpm &so = ref_of(src), &tn = ref_of(tgt);
    if (rd.src_nevr != so.nevr || rd.tgt_nevr != tn.nevr) viol("C01 C03 C09 C12", "delta-nevr", "delta records %s -> %s, packages are %s -> %s", rd.src_nevr.c_str(), rd.tgt_nevr.c_str(), so.nevr.c_str(), tn.nevr.c_str());
    uint8_t m[16]; md5(built[tgt].rpm.data(), built[tgt].rpm.size(), m);
    if (memcmp(m, rd.tgt_md5, 16)) viol("C01 C03 C09 C12", "delta-md5", "recorded target MD5 is wrong");
    bool ident_rpm = rpmonly && (oi.empty() || ni.empty());
    if (ver >= 2 && rd.tgt_size != built[tgt].rpm.size() && !ident_rpm) viol("C01 C03 C09 C12", "delta-size", "recorded target size %u, file has %zu", rd.tgt_size, built[tgt].rpm.size());
    if (!rpmonly) {
        if (unknown_lists && rd.ok) {              // damaged lists may exclude any regular file; the delta says which
            std::vector<size_t> ord; const Altered all = alt_of(src); if (ref_seq_expand(rd.seq, so.files.size(), ord)) for (auto x : all.order) if (std::find(ord.begin(), ord.end(), x) == ord.end() && (so.files[x].mode & 0170000) == 0100000) skip.insert(x);
            truth[d].skip = skip;
        }
        const Altered &al = alt_of(src, skip);
        if (al.ok && rd.seq != al.seq) viol("C01 C03 C06 C09 C12 C16", "delta-sequence", "recorded sequence %s differs from the model's %s", hex(rd.seq.data(), rd.seq.size()).c_str(), hex(al.seq.data(), al.seq.size()).c_str());
        if (al.ok && ver >= 3 && rd.offadj != al.offadj) viol("C01 C03 C09 C12 C16", "delta-offadj", "offset adjustments differ from the model's (%zu vs %zu)", rd.offadj.size(), al.offadj.size());
    } else if (rd.seq.size() != 16 || memcmp(rd.seq.data(), built[src].sigmd5, 16)) viol("C01 C03 C09 C12", "delta-sequence", "rpm-only sequence is not the signature MD5 of the old package");
    Bytes got; std::string why;
    if (!(ver == 1 && specs[tgt].level != 0 && compress_as(tn.cpio, specs[tgt].comp, 0) != built[tgt].payload)) {
        if (!ref_apply(rd, so, got, why, rpmonly ? nullptr : &alt_of(src, skip))) viol(T, "delta-unusable", "the reference cannot apply the delta: %s", why.c_str());
        else if (got != built[tgt].rpm) viol(T, "delta-wrong", "the delta describes a file that differs from the new package (%zu vs %zu bytes)", got.size(), built[tgt].rpm.size());
    }
    if (!sq.empty()) {
        std::string want = seq_id(so.nevr, rd.seq) + "\n";
        if (!vfs.has(sq)) viol("C03 C01 C09 C13 C12", "seqfile-missing", "drpm_make reported success but wrote no sequence file");
        else { Bytes s = vfs.get(sq); if (std::string(s.begin(), s.end()) != want) viol("C03 C01 C09 C13 C12", "seqfile-wrong", "sequence file is %zu bytes, expected %zu: not \"%s\"", s.size(), want.size(), want.c_str()); }
    }
    // options actually used
    std::string wantc = o.a.count("comp") && !o.n("noopts") ? o.g("comp") : specs[tgt].comp; bool fromrpm = !o.a.count("comp") || o.n("noopts"); bool noadd = o.n("noadd") && !o.n("noopts"); std::string ac = o.a.count("acomp") && !o.n("noopts") ? o.g("acomp") : "bzip2"; if (o.a.count("acomp") && !o.n("noopts")) noadd = false;
    static const char *cn[] = {"none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"};
    if (out.model_used) { fromrpm = out.model.from_rpm; wantc = fromrpm ? specs[tgt].comp : cn[out.model.comp]; noadd = !out.model.addblk; ac = cn[out.model.acomp]; }
    if (fromrpm && ident_rpm) wantc = "gzip";
    if (rd.comp != wantc) viol("C01 C13", "delta-comp", "delta body is compressed with %s, expected %s", rd.comp.c_str(), wantc.c_str());
    if (!rd.add.empty()) note("addblk_deltas");
    if (noadd && !rd.add.empty()) viol("C01 C13", "delta-addblk", "add block present although forbidden");
    if (!noadd && !rd.add.empty()) { Bytes x; std::string c; decompress_any(rd.add, x, nullptr, &c); if (c != ac && ac != "none") viol("C01 C13", "delta-addblk", "add block compressed with %s, expected %s", c.c_str(), ac.c_str()); }
    if (!faulted && !out.model_used && !fromrpm && !ident_rpm && wantc != "none" && wantc != "lzip" && compress_as(rd.body, wantc, (int)o.n("lvl")).size() != rd.body_len) viol("C01 C13", "delta-level", "delta body is not compressed at level %ld", o.n("lvl"));
    if (out.model_used && !faulted && !fromrpm && !ident_rpm && wantc != "none" && wantc != "lzip") {   // the level must be honoured too: recompress the body and compare
        size_t body = t.bytes.size() - rd.body_len; Bytes in(t.bytes.begin() + (long)body, t.bytes.end()), raw; size_t u; decompress_any(in, raw, &u, nullptr);
        if (compress_as(raw, wantc, out.model.lvl).size() != in.size()) viol("C13", "delta-level", "delta body is not compressed at level %d", out.model.lvl);
    }
    if (!faulted && !rd.add.empty() && ac != "none" && ac != "lzip") {
        int lvl = out.model_used ? out.model.alvl : o.a.count("acomp") && !o.n("noopts") ? (int)o.n("alvl") : 0; Bytes raw; std::string c; size_t u;
        if (!decompress_any(rd.add, raw, &u, &c) && c == ac && compress_as(raw, ac, lvl).size() != rd.add.size()) viol("C13", "delta-addlevel", "add block is not compressed at level %d", lvl);
    }
}
static std::string first_diff(const Bytes &a, const Bytes &b) { size_t n = std::min(a.size(), b.size()), i = 0; while (i < n && a[i] == b[i]) i++; return std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " bytes, first difference at " + std::to_string(i); }
static bool v1_ok(const Truth &t) { return t.ver > 1 || compress_as(ref_of(t.new_id).cpio, specs[t.new_id].comp, 0) == built[t.new_id].payload; }
static Exp expect_apply(const Op &o, const Before &b, std::string &why) {
    std::string oi = o.g("old"); bool fs = oi.empty() || oi == "-";
    if (!b.has_truth || !b.delta_pristine || !b.t.valid) return EXP_ANY;
    if (fs) {
        if (b.t.type == 1) { why = "rpm-only delta from file system"; return EXP_ERR; }
        if (specs[b.t.new_id].src) { why = "source package from file system"; return EXP_ERR; }
        if (b.inst.empty()) { why = "old package not installed"; return EXP_ERR; }
        if (b.inst_other) return EXP_ANY;
        const Altered &x = alt_truth(b.t, b.inst), &y = alt_truth(b.t, b.t.old_id); if (!x.ok || !y.ok) return EXP_ANY;
        if (x.seq != y.seq) { bool ok; std::vector<size_t> ord; if (ref_seq_expand(y.seq, ref_of(b.inst).files.size(), ord)) { Bytes q = ref_seq(ref_of(b.inst).files, ord, ref_of(b.inst).digest, ok); if (ok && q.size() >= 16 && !memcmp(q.data(), y.seq.data(), 16)) return EXP_ANY; } why = "installed package has other files"; return EXP_ERR; }
        return b.fs_full == EXP_OK && v1_ok(b.t) ? EXP_OK : EXP_ANY;
    }
    if (!built.count(oi) || !b.pristine_old) return EXP_ANY;
    const RefRpm &x = ref_of(oi), &y = ref_of(b.t.old_id);
    if (x.nevr != y.nevr) { why = "other NEVR"; return EXP_ERR; }
    if (b.t.type == 1) {
        if (!y.sigmd5 || !x.sigmd5) return EXP_ANY;
        if (memcmp(x.md5, y.md5, 16)) { why = "other package digest"; return EXP_ERR; }
        return EXP_OK;
    }
    const Altered &ax = alt_truth(b.t, oi), &ay = alt_truth(b.t, b.t.old_id); if (!ax.ok || !ay.ok) return EXP_ANY;
    if (ax.seq == ay.seq && ax.cpio == ay.cpio) return v1_ok(b.t) ? EXP_OK : EXP_ANY;
    std::vector<size_t> ord; if (!ref_seq_expand(ay.seq, x.files.size(), ord)) { why = "sequence does not fit"; return EXP_ERR; }
    bool ok; Bytes q = ref_seq(x.files, ord, x.digest, ok); if (!ok || memcmp(q.data(), ay.seq.data(), 16)) { why = "other files"; return EXP_ERR; }
    return EXP_ANY;
}
static void judge_apply(const Op &o, int rc, const Before &b, bool faulted, Exp e, const std::string &why) {
    std::string n = path_of(o, "out", ".out"); std::string oi = o.g("old"); bool fs = oi.empty() || oi == "-";
    note(rc ? (fs ? "apply_fs_err" : "apply_err") : (fs ? "apply_fs_ok" : "apply_ok"));
    if (!faulted && e == EXP_OK && rc) viol("C01 C02 C06 C07 C11 C12 C16", "apply-failed", "drpm_apply returned %s for an intact delta and the right old package, without any fault", rcname(rc));
    if (e == EXP_ERR && rc == 0) viol("C08 C02 C06", "apply-accepted-wrong-source", "drpm_apply succeeded although: %s", why.c_str());
    if (rc) { if (e == EXP_ERR && !faulted && (why == "old package not installed") && rc != DRPM_ERR_NOINSTALL) viol("C08", "apply-wrong-code", "%s answered with %s", why.c_str(), rcname(rc)); return; }
    const char *T = "C01 C02 C06 C08 C11 C12 C14 C16";
    if (!vfs.has(n)) { viol(T, "no-output", "drpm_apply reported success but the output does not exist"); return; }
    const Bytes &out = vfs.get(n);
    if (b.has_truth && b.t.valid && out == built[b.t.new_id].rpm) return;
    bool loose = b.t.nomd5 && faulted && (sim.fired[F_FLIP] || sim.fired[F_MUT]);      // without a digest nothing vouches for the lead and the rest of the signature
    if (b.has_truth && b.delta_pristine && !loose) { viol(T, "ok-wrong-output", "drpm_apply reported success but the output differs from the new package: %s", first_diff(out, built[b.t.new_id].rpm).c_str()); return; }
    RefDelta rd = ref_delta(b.delta); uint8_t m[16]; md5(out.data(), out.size(), m);
    if (rd.src_nevr.empty() && rd.leadsig.empty()) { viol(T, "ok-garbage-delta", "drpm_apply reported success for a damaged delta (%s); output matches no known package", rd.why.c_str()); return; }
    if (!memcmp(rd.tgt_md5, m, 16)) return;
    static const uint8_t zero[16] = {0};
    if (!memcmp(rd.tgt_md5, zero, 16)) {      // no recorded digest: the header+payload digest of the signature decides
        RefRpm r = ref_rpm(out, false); if (!r.ok || !r.sigmd5) return;
        Bytes body(out.begin() + (long)r.leadsig.size(), out.end()); md5(body.data(), body.size(), m); if (!memcmp(m, r.md5, 16)) return;
    }
    viol(T, "ok-wrong-output", "drpm_apply reported success but the output does not have the digest recorded in the delta");
}
static void judge_check(const Op &o, int rc, const Before &b, bool faulted) {
    bool seq = o.kind == "chkseq"; int mode = (int)o.n("mode", 1); std::string oi = o.g("old"); bool fs = !seq || oi.empty() || oi == "-";
    note(rc ? "check_err" : "check_ok");
    if (o.n("damaged") && o.a.count("text")) {           // an altered sequence: what it says decides, not where it came from
        std::string t = o.g("text"), h; size_t k = t.rfind('-'); bool hexes = true; if (k != std::string::npos) h = t.substr(k + 1);
        for (size_t i = 0; i + 1 < h.size() + h.size() % 2; i++) if (i < h.size() / 2 * 2 && !isxdigit((unsigned char)h[i])) hexes = false;
        bool odd = h.size() % 2; const char *bad = nullptr; Bytes q = hexes ? unhex(h.substr(0, h.size() / 2 * 2)) : Bytes();
        if (k == std::string::npos || k == 0 || !hexes || q.size() < 16) bad = "a malformed sequence";
        else if (!fs && built.count(oi) && b.pristine_old) {
            const RefRpm &x = ref_of(oi); std::vector<size_t> ord; bool ok = false;
            if (x.nevr != t.substr(0, k)) bad = "the sequence of another package";
            else if (q.size() == 16 && x.sigmd5 && !memcmp(x.md5, q.data(), 16)) {}
            else if (!ref_seq_expand(q, x.files.size(), ord)) bad = "a sequence that selects files outside of the package or ends within a number";
            else { Bytes w = ref_seq(x.files, ord, x.digest, ok); if (ok && memcmp(w.data(), q.data(), 16)) bad = "a sequence whose digest is that of other files"; if (!ok) return; }
            if (!bad && rc && !faulted && !odd) viol("C07", "checkseq-incomplete", "drpm_check_sequence returned %s for a sequence of the package's own files", rcname(rc));
        }
        if (bad && rc == 0) viol("C07 C08", "checkseq-malformed", "drpm_check_sequence accepted %s", bad);
        return;
    }
    if (!b.has_truth || !b.t.valid || !b.delta_pristine) return;
    std::string oldid = b.t.old_id; const char *T = "C07 C16";
    if (fs) {
        if (b.inst.empty()) {
            if (rc == 0) viol(T, "check-not-installed", "check succeeded although the old package is not installed");
            else if (!faulted && rc != DRPM_ERR_NOINSTALL) viol(T, "check-not-installed", "old package not installed, but the answer is %s", rcname(rc));
            return;
        }
        if (b.inst_other) return;
        if (b.t.type == 1 && !seq) { if (!faulted && rc) viol(T, "check-rpmonly", "check of an rpm-only delta returned %s although the old package is installed", rcname(rc)); return; }
        if (b.t.type == 1) { return; }
        const Altered &x = alt_truth(b.t, b.inst), &y = alt_truth(b.t, oldid); if (!x.ok || !y.ok) return;
        bool same = x.seq == y.seq;
        if (!same) { bool ok = false; std::vector<size_t> ord; if (ref_seq_expand(y.seq, ref_of(b.inst).files.size(), ord)) { Bytes q = ref_seq(ref_of(b.inst).files, ord, ref_of(b.inst).digest, ok); if (ok && !memcmp(q.data(), y.seq.data(), 16)) return; } if (rc == 0) viol(T, "check-wrong-package", "check succeeded although the installed package has other files than the delta was made from"); return; }
        Exp e = mode == DRPM_CHECK_NONE ? EXP_OK : mode == DRPM_CHECK_FULL ? b.fs_full : b.fs_size;
        if (e == EXP_ERR && rc == 0) viol(T, mode == 1 ? "check-full-unsound" : "check-size-unsound", "%s check succeeded although a needed installed file no longer matches", mode == 1 ? "full" : "file size");
        if (e == EXP_OK && rc && !faulted) viol(T, mode == 1 ? "check-full-incomplete" : "check-size-incomplete", "check in mode %d returned %s although every needed file is intact", mode, rcname(rc));
    } else {
        if (!built.count(oi) || !b.pristine_old) return;
        const RefRpm &x = ref_of(oi), &y = ref_of(oldid);
        bool want;
        if (x.nevr != y.nevr) want = false;
        else if (b.t.type == 1) want = x.sigmd5 && y.sigmd5 && !memcmp(x.md5, y.md5, 16);
        else { const Altered &ax = alt_truth(b.t, oi), &ay = alt_truth(b.t, oldid); if (!ax.ok || !ay.ok) return; bool ok = false; std::vector<size_t> ord; want = false; if (ref_seq_expand(ay.seq, x.files.size(), ord)) { Bytes q = ref_seq(x.files, ord, x.digest, ok); want = ok && !memcmp(q.data(), ay.seq.data(), 16); } }
        if (!want && rc == 0) viol("C07 C08 C16", "checkseq-unsound", "drpm_check_sequence accepted a package the sequence was not made from");
        if (want && rc && !faulted) viol("C07 C16", "checkseq-incomplete", "drpm_check_sequence returned %s for the package the sequence was made from", rcname(rc));
    }
}
static std::string join(const std::vector<uint64_t> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += std::to_string((int64_t)v[i]) + " "; return s + "(" + std::to_string(v.size()) + ")"; }
static void judge_read(const Op &o, int rc, OpOut &out, const Before &b, bool faulted) {
    note(rc ? "read_err" : "read_ok");
    for (auto &m : out.errs) viol("C09 C04", "read-api", "%s", m.c_str());
    if (rc && !faulted && b.has_truth && b.t.valid && b.delta_pristine) viol("C09 C12", "read-failed", "drpm_read returned %s for an intact delta", rcname(rc));
    if (rc || !out.rf.got) return;
    const ReadFacts &f = out.rf;
    if (!faulted) for (auto &m : f.errs) viol("C09", "read-api", "%s", m.c_str());
    if (!f.errs.empty()) return;
    RefDelta d = ref_delta(b.delta);
    const char *T = "C09 C14 C04";
    if (!d.ok && !faulted) { static const std::set<std::string> sure = {"outer version", "outer truncated", "inner version", "version of a whole-package delta", "sequence", "md5", "offset adjustments", "copies", "add data in both places", "body truncated"}; if (sure.count(d.why)) viol(T, "read-accepts", "drpm_read reported success for a delta that is not well-formed: %s", d.why.c_str()); note("read_accepts"); }
    if (!d.ok) { if (b.delta_pristine && b.t.valid) viol(T, "read-malformed", "reference cannot parse the delta: %s", d.why.c_str()); return; }
    if (faulted && (sim.fired[F_FLIP] || sim.fired[F_MUT])) return;     // the bytes drpm saw are not the stored ones
    auto S = [&](const char *k, const std::string &w) { auto i = f.str.find(k); if (i != f.str.end() && i->second != w) viol(T, "read-fact", "tag %s reads \"%.200s\", the delta holds \"%.200s\"", k, i->second.c_str(), w.c_str()); };
    auto N = [&](const char *k, uint64_t w) { auto i = f.num.find(k); if (i != f.num.end() && i->second != w) viol(T, "read-fact", "tag %s reads %llu, the delta holds %llu", k, (unsigned long long)i->second, (unsigned long long)w); };
    S("filename", path_of(o, "delta", ".drpm")); S("sequence", hex(d.seq.data(), d.seq.size())); S("srcnevr", d.src_nevr); if (!d.tgt_nevr.empty()) S("tgtnevr", d.tgt_nevr); S("tgtmd5", hex(d.tgt_md5, 16));
    S("compparam", d.comp_param.empty() ? "(null)" : hex(d.comp_param.data(), d.comp_param.size())); S("lead", hex(d.leadsig.data(), d.leadsig.size()));
    static const int dec[] = {0, 1, 2, 1, 2, 3, 4, 6};
    N("version", (uint64_t)d.ver); N("type", (uint64_t)d.type); N("comp", (uint64_t)comp_by_name(d.comp)); N("tgtsize", d.tgt_size);
    N("tgtcomp", d.ver >= 2 ? ((d.tgt_comp & 255) < 8 ? (uint64_t)dec[d.tgt_comp & 255] : 99) : (uint64_t)comp_by_name(d.hdr_comp));
    N("hdrlen", d.tgt_header_len); N("pfo", d.payload_fmt_off); N("extlen", d.ext_len); N("intlen", d.idata.size());
    std::vector<uint64_t> a; for (auto &x : d.offadj) { a.push_back((uint32_t)x.first); a.push_back((uint32_t)(int32_t)x.second); }
    auto A = [&](const char *k) { auto i = f.arr.find(k); if (i != f.arr.end() && i->second != a) viol(T, "read-fact", "tag %s reads %s, the delta holds %s", k, join(i->second).c_str(), join(a).c_str()); };
    A("adj"); a.clear(); for (auto &x : d.ints) { a.push_back(x.first); a.push_back(x.second); } A("ints");
    a.clear(); for (auto &x : d.exts) { a.push_back((uint32_t)(int32_t)x.first); a.push_back(x.second); } A("exts");
    if (b.delta_pristine && b.t.valid) {
        const RefRpm &so = ref_of(b.t.old_id), &tn = ref_of(b.t.new_id); uint8_t m[16]; md5(built[b.t.new_id].rpm.data(), built[b.t.new_id].rpm.size(), m);
        S("srcnevr", so.nevr); S("tgtnevr", tn.nevr); S("tgtmd5", b.t.nomd5 ? std::string(32, '0') : hex(m, 16)); S("lead", hex(tn.leadsig.data(), tn.leadsig.size())); N("pfo", b.t.type == 1 && d.ints.empty() && d.exts.empty() ? d.payload_fmt_off : tn.payload_fmt_off);
        N("type", (uint64_t)b.t.type); N("version", (uint64_t)b.t.ver);
    }
}
static void judge(const Op &o, int rc, OpOut &out, const Before &b, bool faulted, const std::set<std::string> &allowed) {
    if (rc < 0 || rc > 10) viol("C04", "bad-code", "returned the undocumented code %d", rc);
    if (rc == 8) viol("C04", "internal-error", "returned DRPM_ERR_PROG, the code for a mistake inside the library");
    for (auto &t : vfs.touched) {
        bool tmp = t.compare(0, 9, "/tmp/drpm") == 0;
        if (!allowed.count(t) && !tmp) viol("C10", "touched", "modified %s, which is neither a named output nor a private temporary file", t.c_str());
        if (tmp && vfs.shared_create.count(t)) viol("C10", "tmp-not-private", "temporary file %s was not created exclusively for the caller", t.c_str());
        if (tmp && b.names.count(t)) viol("C10", "touched-tmp", "modified a pre-existing file %s in /tmp", t.c_str());
    }
    if (rc != 0 && o.kind != "make" && o.kind != "apply" && cur_op_desc.compare(0, 10, "concurrent")) for (auto &t : vfs.touched) if (t.compare(0, 9, "/tmp/drpm")) viol("C10", "touched", "a read-only operation modified %s", t.c_str());
    if (o.kind == "misuse") { if (!faulted) for (auto &m : out.errs) viol("C04 C13", "misuse", "%s", m.c_str()); for (auto &t : vfs.touched) viol("C10", "touched", "a refused call modified %s", t.c_str()); }
    else if (o.kind == "make") judge_make(o, rc, out, b, faulted);
    else if (o.kind == "apply") { std::string why; Exp e = expect_apply(o, b, why); judge_apply(o, rc, b, faulted, e, why); }
    else if (o.kind == "check" || o.kind == "chkseq") judge_check(o, rc, b, faulted);
    else if (o.kind == "read") judge_read(o, rc, out, b, faulted);
}
void sim_release(void *p); int sim_children_unawaited();
static bool unlink_failed;       // the system refused to remove a file: it cannot be expected to be gone
static void conservation(const Before &b, const Plan *p = nullptr) {
    if (p && vfs.peak_fds > p->files + 8) viol("C06", "too-many-open-files", "%zu files were open at once with a limit of %u", vfs.peak_fds, p->files);
    if (p && cur_op_desc.compare(0, 5, "apply") == 0 && sim.led.peak_blocks > p->core + 8) viol("C06", "too-many-blocks", "%zu blocks were cached at once with a limit of %u", sim.led.peak_blocks, p->core);
    if (sim_children_unawaited()) viol("C05", "child-leak", "a helper process was left unawaited");
    if (!sim.led.errors.empty()) viol("C05 C04", "bad-release", "%s", sim.led.errors[0].c_str());
    if (vfs.bad_close) viol("C05", "bad-close", "close() called on a descriptor that is not open");
    if (!vfs.fds.empty()) viol("C05", "fd-leak", "%zu descriptor(s) left open, e.g. %s", vfs.fds.size(), vfs.fds.begin()->second.path.c_str());
    for (auto &kv : sim.led.res) if (!kv.second.empty()) viol("C05", ("leak-" + kv.first).c_str(), "%zu %s resource(s) not released", kv.second.size(), kv.first.c_str());
    if (!sim.led.mem.empty()) viol("C05", "mem-leak", "%zu block(s), %zu bytes not released", sim.led.mem.size(), sim.led.bytes);
    if (!unlink_failed) for (auto &kv : vfs.names) if (kv.first.compare(0, 9, "/tmp/drpm") == 0 && !b.names.count(kv.first)) viol("C05", "tmp-leak", "temporary file %s left behind", kv.first.c_str());
}
void sim_release(void *p) { extern void sim_free_c(void *); sim_free_c(p); }

// ------------------------------------------------------------------ execution
static void op_install(const Op &o) {
    std::string id = o.g("rpm"); if (!built.count(id)) return; const RpmSpec &s = specs[id]; BuiltRpm &R = built[id];
    sim.db.push_back(R.headerblob);
    std::map<size_t, uint64_t> pre; std::set<size_t> near; for (auto &t : split(o.g("pre"), ';')) { auto v = split(t, ':'); if (v.size() >= 2) { size_t i = (size_t)atol(v[0].c_str()); pre[i] = strtoull(v[1].c_str(), nullptr, 10); if (v.size() > 2) near.insert(i); } }
    for (size_t i = 0; i < s.files.size(); i++) {
        const FileSpec &f = s.files[i]; if (f.ghost) continue; std::string p = f.path[0] == '/' ? f.path : "/" + f.path;
        Bytes c = R.contents[i]; if ((f.mode & 0170000) == 0100000 && pre.count(i)) { c = prelink_image(c, pre[i], near.count(i)); pre_pristine[p] = c; }
        vfs.put(p, c, f.mode);
    }
}
// A patch list for package `rpm`: un = files listed as not patched, in = entries "file:kind" (g: as packaged, b: another digest, z: not there, e: empty)
static void op_rpml(const Op &o) {
    std::string id = o.g("rpm"); if (!built.count(id)) return; const BuiltRpm &R = built[id]; const RefRpm &r = ref_of(id); RList l; l.nevr = r.nevr; Rng q((uint64_t)o.n("seed"));
    auto nm = [&](size_t i) { const std::string &n = r.files[i].name; return !n.empty() && n[0] == '/' ? n.substr(1) : n; };
    for (auto &t : split(o.g("un"), ';')) if (!t.empty() && !r.files.empty()) { RList::E e; e.name = nm((size_t)atol(t.c_str()) % std::max<size_t>(1, r.files.size())); e.unpatched = true; l.e.push_back(e); }
    for (auto &t : split(o.g("in"), ';')) {
        auto v = split(t, ':'); if (v.size() != 2 || r.files.empty()) continue; size_t i = (size_t)atol(v[0].c_str()) % r.files.size(); RList::E e; e.name = nm(i); e.unpatched = false; e.mode = r.files[i].mode; unsigned ty = e.mode & 0170000;
        const Bytes c = ty == 0120000 ? Bytes(r.files[i].link.begin(), r.files[i].link.end()) : R.contents[i]; e.size = (uint32_t)c.size(); uint8_t d[16]; md5(c.data(), c.size(), d); if (v[1] == "b") d[q.below(16)] ^= (uint8_t)(1 + q.below(255)); e.md5 = hex(d, 16);
        if (v[1] == "z") e.mode = 0; if (v[1] == "e") e.size = 0;
        l.e.push_back(e);
    }
    std::string p = "/w/" + o.g("out") + ".rpml"; ListFile f; f.l = l; f.bytes = ref_rpml(l, (uint64_t)o.n("seed")); vfs.put(p, f.bytes); lists[p] = f;
}
static uint32_t strtou(const std::string &s) { return (uint32_t)strtoul(s.c_str(), nullptr, 10); }
// damage inside the compressed part of a delta (bmut) or of a package (cmut), recompressed so that the damage is reached
static void op_deep_mut(const Op &o) {
    std::string m = o.g("m"); Bytes b; std::string path;
    auto apply_to = [&](Bytes &raw, const std::vector<size_t> *fields, const std::vector<size_t> *counts) {
        auto v = split(m); if (v[0] == "ver") { if (raw.size() > 3) raw[3] = (uint8_t)('0' + o.n("count")); return; }
        if (v[0] == "entry" && v.size() >= 4) {       // a number in the header of an archive member
            std::vector<size_t> at; auto num = [&](size_t p) { uint32_t x = 0; for (size_t i = 0; i < 8; i++) { int c = tolower(raw[p + i]); x = x * 16 + (uint32_t)(c >= 'a' ? c - 'a' + 10 : c - '0'); } return x; };
            for (size_t q = 0; q + 110 <= raw.size() && !memcmp(&raw[q], "07070", 5);) { at.push_back(q); uint64_t n = q + 110 + (uint64_t)num(q + 94); n += (4 - n % 4) % 4; n += num(q + 54); n += (4 - n % 4) % 4; if (n <= q || n > raw.size()) break; q = (size_t)n; }
            if (at.empty()) return;
            size_t p = at[strtou(v[1]) % at.size()] + 6 + 8 * (strtou(v[2]) % 13); uint32_t x = v[3][0] == '+' ? num(p) + strtou(v[3].substr(1)) : v[3][0] == '-' ? num(p) - strtou(v[3].substr(1)) : strtou(v[3]);
            char h[9]; snprintf(h, sizeof h, "%08x", x); memcpy(&raw[p], h, 8); note("archive_entry_damaged"); return;
        }
        if (v.size() >= 3 && o.a.count("count") && counts && !counts->empty()) v[2] = std::to_string((*counts)[(size_t)o.n("count") % counts->size()]);
        else if (v.size() >= 3 && o.a.count("field") && fields && !fields->empty()) v[2] = std::to_string((*fields)[(size_t)o.n("field") % fields->size()] + (v[0] == "set32" ? 0 : strtou(v[2]) % 4));
        else if (v.size() >= 3 && v[0] != "append" && !raw.empty()) v[2] = std::to_string(strtou(v[2]) % raw.size());
        if (v.size() >= 2) v[1] = "/tmp/.deep";
        std::string t; for (auto &x : v) t += x + " ";
        vfs.put("/tmp/.deep", raw); vfs_mutate(t); raw = vfs.has("/tmp/.deep") ? vfs.get("/tmp/.deep") : Bytes(); vfs.rm("/tmp/.deep");
    };
    if (o.kind == "bmut") {
        path = path_of(o, "delta", ".drpm"); if (!vfs.has(path)) return; b = vfs.get(path);
        RefDelta d = ref_delta(b); if (d.body.empty()) return;
        apply_to(d.body, &d.fields, &d.counts); Bytes c = compress_as(d.body, d.comp, 3); b.resize(d.body_off); b.insert(b.end(), c.begin(), c.end());
    } else {
        path = path_of(o, "rpm", ".rpm"); if (!vfs.has(path)) return; b = vfs.get(path);
        RefRpm r = ref_rpm(b); if (!r.ok || !r.cpio_ok) return;
        Bytes c = r.cpio; apply_to(c, nullptr, nullptr); c = compress_as(c, r.comp, r.level); b.resize(r.payload_off); b.insert(b.end(), c.begin(), c.end());
    }
    vfs.put(path, b);
}
// Another delta between the same packages: one no differ of ours writes, but which the format allows. The reference confirms what it describes.
static void op_craft(const Op &o) {
    std::string path = path_of(o, "delta", ".drpm"); auto it = truth.find(path);
    if (it == truth.end() || !it->second.valid || !vfs.has(path) || vfs.get(path) != it->second.bytes) return;
    Truth &t = it->second; RefDelta d = ref_delta(t.bytes); if (!d.ok) return; Rng r((uint64_t)o.n("seed")); const RefRpm &old = ref_of(t.old_id);
    const Altered *al = t.type ? nullptr : &alt_of(t.old_id, t.skip); Bytes E, T; std::string why;
    if (!(d.ints.empty() && d.exts.empty()) && !r.chance(1, 4)) { if (!ref_old_data(d, old, E, al) || !ref_diff_apply(d, E, T, why)) return; ref_rediff(d, E, T, r); }
    if (d.ver >= 2 && r.chance(1, 3)) { d.comp_param.clear(); for (size_t n = 1 + r.below(r.chance(1, 6) ? 9000 : 20); n--;) d.comp_param.push_back((uint8_t)r.next()); }
    if (d.ver >= 2 && ((d.tgt_comp & 255) == 1 || (d.tgt_comp & 255) == 2) && r.chance(1, 2)) d.tgt_comp += 2;      // the older codes for gzip and bzip2
    if (r.chance(1, 4) && ref_of(t.new_id).sigmd5) { memset(d.tgt_md5, 0, 16); t.nomd5 = true; }
    static const char *C[] = {"none", "gzip", "bzip2", "lzma", "xz", "zstd", "lzip"}; std::string c = r.chance(1, 2) ? d.comp : C[r.below(7)];
    if (t.ver == 1 && !v1_ok(t)) { t.nomd5 = false; return; }
    Bytes b = ref_encode(d, c, c == "gzip" || c == "bzip2" ? (int)r.below(10) : 1); RefDelta q = ref_delta(b); Bytes got;
    if (!q.ok || !ref_apply(q, old, got, why, al)) { note("craft_unusable"); if (getenv("DRPM_SIM_SELF")) dprintf(2, "craft: %s / %s\n", q.why.c_str(), why.c_str()); t.nomd5 = false; return; }
    if (!o.g("out").empty()) { Truth u = t; t.nomd5 = false; u.bytes = b; path = path_of(o, "out", ".drpm"); truth[path] = u; } else t.bytes = b;
    vfs.put(path, b); note("crafted");
}
static std::vector<OpInfo> infos;
static void report_end() {
    std::string o; char b[128];
    for (size_t i = 0; i < infos.size(); i++) { o += "O\t" + std::to_string(i) + "\t" + std::to_string(infos[i].rc); for (int c = 0; c < C_N; c++) { snprintf(b, sizeof b, "\t%llu", (unsigned long long)infos[i].cnt[c]); o += b; } o += "\n"; }
    emit_common(o); o += "E\n"; raw_write(o);
}
static bool fill_sequence(Op &o) {
    if (o.kind == "chkseq" && !o.a.count("text")) {      // sequence text of a delta, optionally damaged
            std::string d = path_of(o, "delta", ".drpm"); auto it = truth.find(d);
            if (it == truth.end() || !it->second.valid) { return false; }
            RefDelta rd = ref_delta(it->second.bytes); std::string t = seq_id(rd.src_nevr, rd.seq);
            if (o.a.count("damage")) { Rng r((uint64_t)o.n("damage")); switch (r.below(6)) { case 4: { static const char *q[] = {"8", "9", "f", "01", "11", "88", "808", "0f", "18", "9a", "8888", "0808", "bf", "10", "0", "00"}; t += q[r.below(16)]; if ((t.size() - t.rfind('-') - 1) & 1) t += "08f"[r.below(3)]; break; } case 5: { size_t k = t.rfind('-'); if (k != std::string::npos && t.size() > k + 33) t.resize(k + 33 + r.below(t.size() - k - 32)); break; } case 0: if (t.size() > 2) t.resize(1 + r.below(t.size() - 1)); break; case 1: t[r.below(t.size())] = "0123456789abcdefg-"[r.below(18)]; break; case 2: t += std::string(1 + r.below(40), "0189f"[r.below(5)]); break; default: { size_t k = t.rfind('-'); if (k != std::string::npos && t.size() > k + 34) for (int q = 0; q < 3; q++) t[k + 33 + r.below(t.size() - k - 33)] = "0123456789abcdef"[r.below(16)]; } } o.a["damaged"] = "1"; }
            o.a["text"] = t;
        }
    return true;
}
static int run_call(const Op &op, OpOut &out);
// An options object has no memory: a fresh one, set straight to the settings that a history of calls ended with, makes the same delta.
static void twin_make(const Op &o, int rc, const OpOut &out) {
    static const char *cn[] = {"none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"}; const OptModel &m = out.model;
    Op t; t.kind = "make"; t.a["old"] = o.g("old"); t.a["new"] = o.g("new"); t.a["out"] = "twin.of.the.delta"; t.a["ver"] = std::to_string(m.ver); if (m.rpmonly) t.a["type"] = "rpm";
    if (!m.from_rpm) { t.a["comp"] = cn[m.comp]; t.a["lvl"] = std::to_string(m.lvl); }
    if (!m.addblk) t.a["noadd"] = "1"; else { t.a["acomp"] = cn[m.acomp]; t.a["alvl"] = std::to_string(m.alvl); }
    if (!m.pp.empty()) { t.a["pp"] = m.pp; t.a["pq"] = m.pq; }
    std::string d = path_of(t, "out", ".drpm"), made = path_of(o, "out", ".drpm"); OpOut to; int rt = run_call(t, to); note("twin_makes");
    if (rt != rc) viol("C13", "options-history", "drpm_make returned %s, but %s with a fresh options object of the same settings", rcname(rc), rcname(rt));
    else if (!rc && (!vfs.has(d) || vfs.get(d) != vfs.get(made))) viol("C13", "options-history", "the delta differs from the one made with a fresh options object of the same settings");
    vfs.rm(d);
}
static int run_call(const Op &op, OpOut &out) { sim.in_op = true; errno = 0; int rc = perform(op, out); sim.in_op = false; return rc; }

// packages of the plan being varied, built once by the parent
static std::map<std::string, BuiltRpm> prebuilt_rpms;
static std::string rpm_key(const RpmSpec &r) { Plan q; q.rpms.push_back(r); return plan_text(q); }
void prebuild(const Plan &p) { prebuilt_rpms.clear(); for (auto &r : p.rpms) prebuilt_rpms[rpm_key(r)] = build_rpm(r); }
static BuiltRpm prebuilt(const RpmSpec &r) { auto it = prebuilt_rpms.find(rpm_key(r)); return it == prebuilt_rpms.end() ? build_rpm(r) : it->second; }
void execute(const Plan &p) {
    cur_check = p.check; arm_cpu(cpu_limit(p)); signal(SIGABRT, on_abort);
    drpm_sim_max_core_blocks = p.core; drpm_sim_max_open_files = p.files;
    vfs.mkdirs("/w/x"); vfs.mkdirs("/tmp/x"); vfs.mkdirs("/usr/sbin/x");
    for (auto &r : p.rpms) { specs[r.id] = r; built[r.id] = prebuilt(r); vfs.put("/w/" + r.id + ".rpm", built[r.id].rpm); }
    { Rng er(p.seed ^ 0x57d10); static const size_t B[] = {0, 0, 1, 7, 16, 64, 200}; sim.stdio_buf = B[er.below(7)]; sim_seed_env(p.seed); sim.fill_seed = mix64(p.seed, 77); }
    sim.hash = mix64(sim.hash, p.seed); memset(sim.fired, 0, sizeof sim.fired);
    std::map<std::string, bool> out_ok;   // files whose last writer reported success
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; cur_op_index = (int)i; cur_op_desc = o.kind; for (auto &kv : o.a) if (kv.second.size() < 60) cur_op_desc += " " + kv.first + "=" + kv.second;
        OpInfo inf; inf.kind = o.kind; sim_reset_op((int)i);
        if (o.kind == "install") { op_install(o); infos.push_back(inf); continue; }
        if (o.kind == "uninstall") { std::string id = o.g("rpm"); auto &db = sim.db; db.erase(std::remove(db.begin(), db.end(), built[id].headerblob), db.end()); infos.push_back(inf); continue; }
        if (o.kind == "tool") { if (o.n("on")) vfs.put("/usr/sbin/prelink", Bytes(10, 'p'), 0100755); else vfs.rm("/usr/sbin/prelink"); infos.push_back(inf); continue; }
        if (o.kind == "rpml") { op_rpml(o); infos.push_back(inf); continue; }
        if (o.kind == "mut") { vfs_mutate(o.g("m")); infos.push_back(inf); continue; }
        if (o.kind == "craft") { op_craft(o); infos.push_back(inf); continue; }
        if (o.kind == "bmut" || o.kind == "cmut") { op_deep_mut(o); infos.push_back(inf); continue; }
        if (o.kind == "stale") { Bytes j((size_t)o.n("size")); Rng jr((uint64_t)o.n("seed")); for (auto &x : j) x = (uint8_t)jr.next(); vfs.put(o.g("path"), j); truth.erase(o.g("path")); infos.push_back(inf); continue; }   // left by somebody else
        if (o.kind == "space") { vfs.space = o.n("n", -1); infos.push_back(inf); continue; }
        if (o.kind == "knob") { drpm_sim_max_core_blocks = (unsigned)o.n("core", 5000); drpm_sim_max_open_files = (unsigned)o.n("files", 50); infos.push_back(inf); continue; }
        if (o.kind == "same") {   // two files must be byte-identical (history independence)
            std::string a = o.g("a"), c = o.g("b"); bool ha = vfs.has(a), hc = vfs.has(c);
            if (ha && hc && out_ok[a] && out_ok[c] && vfs.get(a) != vfs.get(c)) viol("C11", "not-deterministic", "%s and %s differ: %s", a.c_str(), c.c_str(), first_diff(vfs.get(a), vfs.get(c)).c_str());
            infos.push_back(inf); continue;
        }
        std::vector<Fault> fl; bool crash = false; for (auto &f : p.faults) if (f.op == (int)i) { fl.push_back(f); crash |= f.kind == F_CRASH; }
        if (o.kind == "par") {
            size_t n = (size_t)o.n("n", 2); std::vector<const Op *> subs; std::vector<std::unique_ptr<Op>> own; size_t taken = 0;
            for (size_t k = 1; k <= n && i + k < p.ops.size() && is_lib(p.ops[i + k].kind); k++) { own.emplace_back(new Op(p.ops[i + k])); taken++; if (fill_sequence(*own.back())) subs.push_back(own.back().get()); }
            std::vector<Before> bs(subs.size()); std::vector<OpOut> outs(subs.size()); std::vector<int> rcs(subs.size(), -1); std::set<std::string> allowed;
            for (size_t k = 0; k < subs.size(); k++) { snapshot(*subs[k], bs[k]); auto os = outputs_of(*subs[k]); allowed.insert(os.begin(), os.end()); }
            std::vector<Preempt> pre; for (auto &t : split(o.g("pre"), ';')) { auto v = split(t, ':'); if (v.size() == 2) { auto pl = v[0].find('+'); pre.push_back({strtoull(v[0].c_str(), nullptr, 10), pl == std::string::npos ? 0 : strtoull(v[0].c_str() + pl + 1, nullptr, 10), atoi(v[1].c_str())}); } }
            sim.faults = fl; sim.led.clear(); vfs.touched.clear(); vfs.shared_create.clear(); vfs.bad_close = 0; vfs.peak_fds = 0;
            std::vector<std::function<void()>> fns; for (size_t k = 0; k < subs.size(); k++) fns.push_back([&, k] { rcs[k] = perform(*subs[k], outs[k]); });
            sim.in_op = true; RoundRobin rr; { auto v = split(o.g("rr"), ':'); if (v.size() == 4) { rr.blocks = v[0] == "b"; rr.statics = v[0] == "s"; rr.k = strtoull(v[1].c_str(), nullptr, 10); rr.from = strtoull(v[2].c_str(), nullptr, 10); rr.count = strtoull(v[3].c_str(), nullptr, 10); } }
            uint64_t sw = run_fibers(fns, pre, rr); sim.in_op = false;
            note("switches", sw); if (sim.statics) note("static_accesses", sim.statics);
            bool faulted = false; unlink_failed = false; for (auto &f : sim.faults) { faulted |= f.fired; unlink_failed |= f.fired && f.cls == C_UNLINK; }
            memcpy(inf.cnt, sim.cnt, sizeof inf.cnt); inf.rc = 0; infos.push_back(inf);
            conservation(bs.empty() ? Before() : bs[0]);
            auto touched = vfs.touched;
            for (size_t k = 0; k < subs.size(); k++) {
                cur_op_index = (int)(i + 1 + k); cur_op_desc = "concurrent " + subs[k]->kind; vfs.touched = k == 0 ? touched : std::set<std::string>();
                for (auto &f : outputs_of(*subs[k])) out_ok[f] = rcs[k] == 0;
                judge(*subs[k], rcs[k], outs[k], bs[k], faulted, allowed);
                OpInfo si; si.kind = subs[k]->kind; si.rc = rcs[k]; infos.push_back(si); sim.hash = mix64(sim.hash, (uint64_t)rcs[k]);
            }
            for (size_t k = subs.size(); k < taken; k++) infos.push_back(OpInfo());
            i += taken; sim.faults.clear(); vfs.space = -1; continue;
        }
        if (!is_lib(o.kind)) { infos.push_back(inf); continue; }
        Before b; Op o2 = o;
        if (!fill_sequence(o2)) { infos.push_back(inf); continue; }
        snapshot(o2, b); if (o2.n("damaged")) b.has_truth = false;
        sim.faults = fl; sim.led.clear(); vfs.touched.clear(); vfs.shared_create.clear(); vfs.bad_close = 0; vfs.peak_fds = 0;
        OpOut out; int rc = -1; bool crashed = false; std::set<std::string> allowed = outputs_of(o2);
        if (o.a.count("script")) { allowed.clear(); allowed.insert(path_of(o2, "out", ".drpm")); allowed.insert("/w/s1.seq"); allowed.insert("/w/s2.seq"); allowed.insert("/w/a-longer-name-for-the-sequence.seq"); }
        if (!crash) { rc = run_call(o2, out); }
        else {
            int pp[2]; if (pipe(pp)) sim_die("internal", "pipe");
            fflush(nullptr);
            pid_t pid = fork();
            if (pid < 0) sim_die("internal", "fork");
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); close(pp[0]); arm_cpu(cpu_limit(p)); sim.in_crash_child = true; sim.crash_fd = pp[1];
                rc = run_call(o2, out);
                std::string d = vfs.dump(); uint64_t hdr[4 + F_KN + C_N + 1] = {0, sim.hash, sim.total_steps, (uint64_t)rc}; for (int k = 0; k < F_KN; k++) hdr[4 + k] = sim.fired[k];
                (void)C_N; std::string h((char *)hdr, (4 + F_KN) * 8); d.insert(0, h); size_t w = 0; while (w < d.size()) { ssize_t k = write(pp[1], d.data() + w, d.size() - w); if (k <= 0) _exit(78); w += (size_t)k; }
                _exit(42);
            }
            close(pp[1]); std::string s; char buf[65536]; ssize_t k; while ((k = read(pp[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)k); close(pp[0]);
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 42 || s.size() < (4 + F_KN) * 8) sim_die("internal", "crash incarnation ended oddly");
            uint64_t hdr[4 + F_KN]; memcpy(hdr, s.data(), sizeof hdr); sim.hash = hdr[1]; sim.total_steps = hdr[2]; for (int q = 0; q < F_KN; q++) sim.fired[q] = hdr[4 + q];
            vfs.fds.clear(); vfs.load(s.substr(sizeof hdr)); crashed = hdr[0] == 1; if (!crashed) rc = (int)hdr[3]; else note("crashes");
        }
        memcpy(inf.cnt, sim.cnt, sizeof inf.cnt); inf.rc = crashed ? -2 : rc; infos.push_back(inf);
        sim.hash = mix64(sim.hash, (uint64_t)(rc + 5));
        if (verbose_child) fprintf(stderr, "op %zu %s -> %s\n", i, cur_op_desc.c_str(), crashed ? "process crashed" : rcname(rc));
        bool faulted = crash; unlink_failed = false; for (auto &f : sim.faults) { faulted |= f.fired; unlink_failed |= f.fired && f.cls == C_UNLINK; } sim.faults.clear();
        if (faulted) note("ops_faulted");
        note(("rc:" + o.kind + ":" + (crashed ? "crash" : rcname(rc))).c_str());
        if (vfs.space >= 0 && o.kind != "space") vfs.space = -1;      // a full disk is cleared before the next operation
        for (auto &f : allowed) out_ok[f] = !crashed && rc == 0;
        if (crashed) {
            for (auto &t : vfs.touched) if (!allowed.count(t) && t.compare(0, 9, "/tmp/drpm")) viol("C10", "touched", "before the crash, modified %s, which is neither a named output nor a private temporary file", t.c_str());
            if (o.kind == "make") truth.erase(path_of(o, "out", ".drpm"));
            continue;
        }
        if (!crash) conservation(b, &p);
        judge(o2, rc, out, b, faulted, allowed);
        if (out.model_used && !faulted && !crash && rc < 8) twin_make(o2, rc, out);
    }
    report_end();
}

// ------------------------------------------------------------------ parent side
Result run_plan(const Plan &p, bool verbose) {
    Result r; int pp[2]; if (pipe(pp)) { r.internal = true; r.imsg = "pipe"; return r; }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { close(pp[0]); close(pp[1]); r.internal = true; r.imsg = "fork"; return r; }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); close(pp[0]); result_fd = pp[1]; verbose_child = verbose; sim.trace = verbose && getenv("SIM_TRACE");
        if (!verbose) { FILE *f = freopen("/dev/null", "w", stderr); (void)f; }
        execute(p); _exit(0);
    }
    close(pp[1]);
    std::string s; char buf[65536]; ssize_t k; bool stalled = false;
    for (;;) {      // a run that uses up its CPU limit reports so itself; one that sleeps for minutes is the machine's (or the simulator's) trouble
        pollfd pf = {pp[0], POLLIN, 0}; int n = poll(&pf, 1, 100000 + 2000 * cpu_limit(p));
        if (n < 0 && errno == EINTR) continue;
        if (n == 0) { stalled = true; kill(pid, SIGKILL); break; }
        if ((k = read(pp[0], buf, sizeof buf)) <= 0) break;
        s.append(buf, (size_t)k);
    }
    close(pp[0]); int st = 0; waitpid(pid, &st, 0);
    if (stalled) { r.internal = true; r.imsg = "stalled"; return r; }
    bool ended = false;
    for (auto &line : split(s, '\n')) {
        auto v = split(line, '\t'); if (v.empty()) continue;
        if (v[0] == "V" && v.size() >= 3) { if (!r.violated) { r.violated = true; r.vclass = v[1]; r.vmsg = v[2]; } }
        else if (v[0] == "I" && v.size() >= 2) { r.internal = true; r.imsg = v[1]; }
        else if (v[0] == "H" && v.size() >= 4) { r.hash = strtoull(v[1].c_str(), nullptr, 10); r.state = strtoull(v[2].c_str(), nullptr, 10); r.steps = strtoull(v[3].c_str(), nullptr, 10); }
        else if (v[0] == "F" && v.size() >= 3) r.fired[atoi(v[1].c_str())] = strtoull(v[2].c_str(), nullptr, 10);
        else if (v[0] == "N" && v.size() >= 3) r.notes[v[1]] = strtoull(v[2].c_str(), nullptr, 10);
        else if (v[0] == "O" && v.size() >= 3 + C_N) { OpInfo i; i.rc = atoi(v[2].c_str()); for (int c = 0; c < C_N; c++) i.cnt[c] = strtoull(v[3 + (size_t)c].c_str(), nullptr, 10); r.ops.push_back(i); }
        else if (v[0] == "E") ended = true;
    }
    if (!ended && !r.violated && !r.internal) {
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { r.violated = true; r.vclass = "crash:signal-" + std::to_string(WTERMSIG(st)); r.vmsg = "the process died from signal " + std::to_string(WTERMSIG(st)); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { r.violated = true; r.vclass = "crash:exit"; r.vmsg = "the process ended with status " + std::to_string(WEXITSTATUS(st)); }
        else { r.internal = true; r.imsg = "run ended without a report"; }
    }
    return r;
}

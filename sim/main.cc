// Runner: seeded search over plans, minimisation, replay, determinism gate, evidence.
#include "ops.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
extern "C" {
#include <rpm/rpmlib.h>
#include <rpm/rpmlog.h>
#include <rpm/rpmmacro.h>
#include <rpm/rpmpgp.h>
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec / 1e9; }
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
extern "C" char __executable_start, etext;
static void warm_up() {
    cov_init((size_t)(&etext - &__executable_start), (uintptr_t)&__executable_start);
    rpmlogSetMask(0); { FILE *n = fopen("/dev/null", "w"); if (n) rpmlogSetFile(n); }
    rpmReadConfigFiles(nullptr, nullptr);
    uint8_t d[32]; md5("x", 1, d); sha256("x", 1, d);
    // touch librpm paths that initialise lazily (crypto, tag tables, io)
    RpmSpec s; s.id = "w"; s.name = "w"; s.ver = "1"; s.rel = "1"; s.arch = "noarch"; FileSpec f; f.path = "/etc/w"; f.c.size = 100; s.files.push_back(f);
    BuiltRpm b = build_rpm(s); ref_rpm(b.rpm);
}

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> known; static std::set<size_t> known_hit;
static void load_known(const std::string &file) {
    std::ifstream f(file); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 8, "finding:") != 0) continue;
        Known k; auto get = [&](const std::string &key) { auto i = l.find(" " + key + "="); if (i == std::string::npos) return std::string(); i += key.size() + 2; if (l[i] == '"') { auto e = l.find('"', i + 1); return l.substr(i + 1, e - i - 1); } auto e = l.find(' ', i); return l.substr(i, e == std::string::npos ? e : e - i); };
        k.prop = get("property"); k.cls = get("class"); k.match = get("match"); k.text = get("what"); known.push_back(k);
    }
}
static int known_index(const std::string &check, const Result &r) {
    for (size_t i = 0; i < known.size(); i++) if (known[i].prop == check && known[i].cls == r.vclass && r.vmsg.find(known[i].match) != std::string::npos) return (int)i;
    return -1;
}

// ------------------------------------------------------------------ minimiser
static bool still(const Plan &p, const std::string &cls, Result *out = nullptr) { Result r = run_plan(p); if (out) *out = r; return r.violated && r.vclass == cls; }
static Plan without_op(const Plan &p, size_t i) {
    Plan q = p; q.ops.erase(q.ops.begin() + (long)i); std::vector<Fault> nf;
    for (auto f : q.faults) { if (f.op == (int)i) continue; if (f.op > (int)i) f.op--; nf.push_back(f); } q.faults = nf;
    for (size_t k = 0; k < i && k < q.ops.size(); k++) if (q.ops[k].kind == "par" && k + (size_t)q.ops[k].n("n") >= i) q.ops[k].a["n"] = std::to_string(q.ops[k].n("n") - 1);
    return q;
}
static Plan minimise(Plan p, const std::string &cls, double budget, unsigned &tries) {
    double end = now() + budget; bool again = true; tries = 0;
    auto attempt = [&](const Plan &q) { if (now() > end) return false; tries++; if (still(q, cls)) { p = q; again = true; return true; } return false; };
    while (again && now() < end) {
        again = false;
        for (size_t i = p.faults.size(); i-- > 0;) { Plan q = p; q.faults.erase(q.faults.begin() + (long)i); attempt(q); }
        for (size_t i = p.ops.size(); i-- > 0;) if (i < p.ops.size()) attempt(without_op(p, i));
        for (size_t i = p.rpms.size(); i-- > 0;) if (i < p.rpms.size()) { Plan q = p; q.rpms.erase(q.rpms.begin() + (long)i); attempt(q); }
        // halves of the file lists first, then single files
        for (size_t k = 0; k < p.rpms.size(); k++) {
            for (size_t chunk = std::max<size_t>(1, p.rpms[k].files.size() / 2);; chunk /= 2) {
                for (size_t i = 0; i < p.rpms[k].files.size() && now() < end;) {
                    std::string path = p.rpms[k].files[i].path; Plan q = p; size_t n = std::min(chunk, q.rpms[k].files.size() - i); std::set<std::string> gone; for (size_t z = i; z < i + n; z++) gone.insert(q.rpms[k].files[z].path);
                    q.rpms[k].files.erase(q.rpms[k].files.begin() + (long)i, q.rpms[k].files.begin() + (long)(i + n));
                    if (attempt(q)) continue;
                    Plan q2 = p; for (auto &s : q2.rpms) s.files.erase(std::remove_if(s.files.begin(), s.files.end(), [&](const FileSpec &f) { return gone.count(f.path); }), s.files.end());
                    if (attempt(q2)) continue;
                    i += chunk;
                }
                if (chunk <= 1) break;
            }
            for (size_t i = 0; i < p.rpms[k].files.size(); i++) {
                if (!p.rpms[k].files[i].c.edits.empty()) { Plan q = p; q.rpms[k].files[i].c.edits.pop_back(); attempt(q); }
                if (p.rpms[k].files[i].c.size > 64) { Plan q = p; for (auto &s : q.rpms) for (auto &f : s.files) if (f.path == p.rpms[k].files[i].path) f.c.size /= 2; attempt(q); }
            }
            if (p.rpms[k].pad) { Plan q = p; q.rpms[k].pad = 0; attempt(q); }
            if (p.rpms[k].rsvd) { Plan q = p; q.rpms[k].rsvd = 0; attempt(q); }
            if (p.rpms[k].order) { Plan q = p; q.rpms[k].order = 0; attempt(q); }
        }
        for (size_t i = 0; i < p.ops.size(); i++) {
            std::vector<std::string> keys; for (auto &kv : p.ops[i].a) keys.push_back(kv.first);
            for (auto &k : keys) { static const std::set<std::string> keep = {"old", "new", "out", "delta", "mode", "rpm", "m", "n", "a", "b", "text", "on", "path"}; if (keep.count(k) || !p.ops[i].a.count(k)) continue; if (k == "rr") { Plan q = p; q.ops[i].a.erase(k); if (attempt(q)) continue; for (int tries = 0; tries < 24; tries++) { auto v = split(p.ops[i].g("rr"), ':'); uint64_t kk = strtoull(v[1].c_str(), nullptr, 10), fr = strtoull(v[2].c_str(), nullptr, 10), cn = strtoull(v[3].c_str(), nullptr, 10); auto mk = [&](uint64_t f2, uint64_t c2) { Plan q2 = p; q2.ops[i].a["rr"] = v[0] + ":" + v[1] + ":" + std::to_string(f2) + ":" + std::to_string(c2); return attempt(q2); }; uint64_t h = cn / 2; if (cn > 1 && mk(fr, h)) continue; if (cn > 1 && v[0] == "e" && mk(fr + h * kk, cn - h)) continue; if (cn > 1 && mk(fr, cn - 1)) continue; break; } } else if (k == "pre" || k == "script") { char sep = k == "pre" ? ';' : ','; auto v = split(p.ops[i].g(k), sep); for (size_t z = v.size(); z-- > 0;) { auto w = split(p.ops[i].g(k), sep); if (z >= w.size()) continue; w.erase(w.begin() + (long)z); std::string s; for (size_t y = 0; y < w.size(); y++) s += (y ? std::string(1, sep) : "") + w[y]; Plan q = p; q.ops[i].a[k] = s; attempt(q); } } else { Plan q = p; q.ops[i].a.erase(k); attempt(q); } }
        }
        if (p.core != 5000) { Plan q = p; q.core = 5000; attempt(q); }
        if (p.files != 50) { Plan q = p; q.files = 50; attempt(q); }
        for (size_t i = 0; i < p.faults.size(); i++) { if (p.faults[i].sticky) { Plan q = p; q.faults[i].sticky = false; attempt(q); } if (p.faults[i].p > 1 && p.faults[i].kind != F_ERR) { Plan q = p; q.faults[i].p = 0; if (!attempt(q)) { q = p; q.faults[i].p /= 2; attempt(q); } } }
    }
    return p;
}

// ------------------------------------------------------------------ search
struct Agg {
    uint64_t evals = 0, faulted_runs = 0, steps = 0, fired[F_KN] = {0}, gate = 0, ops = 0; std::map<std::string, uint64_t> notes; std::set<uint64_t> states, traces;
    void add(const Result &r) { evals++; steps += r.steps; bool f = false; for (int i = 0; i < F_KN; i++) { fired[i] += r.fired[i]; f |= r.fired[i] != 0; } faulted_runs += f; for (auto &n : r.notes) notes[n.first] += n.second; states.insert(r.state); traces.insert(r.hash); ops += r.ops.size(); }
};
static std::string ser(const Result &r) { std::ostringstream s; s << r.hash << ' ' << r.state << ' ' << r.steps << ' ' << r.ops.size(); for (int i = 0; i < F_KN; i++) s << ' ' << r.fired[i]; for (auto &n : r.notes) s << ' ' << esc(n.first) << ' ' << n.second; return s.str(); }
static Result deser(const std::string &l) { Result r; std::istringstream s(l); size_t n; s >> r.hash >> r.state >> r.steps >> n; r.ops.resize(n); for (int i = 0; i < F_KN; i++) s >> r.fired[i]; std::string k; uint64_t v; while (s >> k >> v) r.notes[unesc(k)] = v; return r; }
static void send_line(int fd, const std::string &l) { std::string s = l + "\n"; size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += (size_t)k; } }

static void worker(int fd, const std::string &check, uint64_t seed, bool thorough, uint64_t from, uint64_t step, uint64_t count, double end) {
    int stalls = 0;
    for (uint64_t i = from; i < count && now() < end; i += step) {
        uint64_t s = mix64(mix64(seed, fnv(check.data(), check.size())), i); Plan base = gen_plan(check, s, thorough); Rng r(s ^ 0xfa017);
        int nv = fault_variants(check); prebuild(base);
        Result pr;
        for (int v = 0; v <= nv && now() < end; v++) {
            Plan p = base; if (v) { add_faults(p, r, pr); if (p.faults.empty()) break; }
            p.seed = mix64(s, (uint64_t)v);
            Result q = run_plan(p); if (!v) pr = q;
            if (q.internal && q.imsg == "stalled" && stalls++ < 2) { FILE *f = fopen("/tmp/drpm_sim_stalled.plan", "w"); if (f) { fputs(plan_text(p).c_str(), f); fclose(f); } break; }
            if (q.internal) { send_line(fd, "I " + std::to_string(i) + " " + q.imsg); send_line(fd, "P " + esc(plan_text(p))); return; }
            if (q.violated) { send_line(fd, "V " + std::to_string(i * 100 + (uint64_t)v) + " " + esc(q.vclass) + " " + std::to_string(q.hash) + " " + esc(q.vmsg) + " " + esc(plan_text(p))); if (!v) break; continue; }      // the parent ends the search once a violation came back in a process of its own
            send_line(fd, "R " + ser(q));
            { std::string t = plan_text(p); Plan p2; if (!plan_parse(t, p2) || plan_text(p2) != t) { send_line(fd, "I " + std::to_string(i) + " the text of a plan is not the plan"); send_line(fd, "P " + esc(t)); return; } }
            if (i % 24 == 7 && v <= 1) { Plan p2; plan_parse(plan_text(p), p2); Result q2 = run_plan(p2); if (!q2.internal) send_line(fd, q2.hash == q.hash && q2.state == q.state && !q2.violated ? "G" : "X " + std::to_string(i) + " " + esc(plan_text(p))); }
            if (v <= 1 && i < 3 * step) send_line(fd, "S " + esc(plan_text(p)));
        }
    }
    send_line(fd, "D");
}
static std::string jesc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN); signal(SIGALRM, SIG_DFL);
    std::vector<std::string> a(argv + 1, argv + argc); if (a.empty()) { fprintf(stderr, "usage: sim check ID | gen ID SEED VARIANT | replay FILE | min FILE OUT\n"); return 2; }
    auto opt = [&](const std::string &k, const std::string &d) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == "--" + k) return a[i + 1]; return d; };
    if (!getenv("DRPM_SIM_NOASLR")) { setenv("DRPM_SIM_NOASLR", "1", 1); int per = personality(0xffffffff); if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); } }
    warm_up();
    if (a[0] == "replay") {
        Plan p; if (a.size() < 2 || !plan_parse(slurp(a[1]), p)) { fprintf(stderr, "cannot parse plan\n"); return 2; }
        Result r = run_plan(p, opt("quiet", "") == "");
        if (r.internal) { fprintf(stderr, "internal: %s\n", r.imsg.c_str()); return 2; }
        printf("hash=%llu steps=%llu %s%s%s\n", (unsigned long long)r.hash, (unsigned long long)r.steps, r.violated ? ("REPRODUCED property=" + p.check + " class=").c_str() : "no violation", r.vclass.c_str(), r.violated ? (": " + r.vmsg).c_str() : "");
        for (auto &n : r.notes) if (opt("notes", "") != "") printf("  %s %llu\n", n.first.c_str(), (unsigned long long)n.second);
        return r.violated ? 1 : 0;
    }
    if (a[0] == "gen" && a.size() >= 3) {
        uint64_t s = mix64(mix64(strtoull(opt("seed", "1").c_str(), nullptr, 10), fnv(a[1].data(), a[1].size())), strtoull(a[2].c_str(), nullptr, 10)); Plan b = gen_plan(a[1], s, false); int v = a.size() > 3 && a[3][0] != '-' ? atoi(a[3].c_str()) : 0; Rng r(s ^ 0xfa017); Plan p = b;
        if (v) { Result pr = run_plan(b); for (int i = 1; i <= v; i++) { p = b; add_faults(p, r, pr); } }
        p.seed = mix64(s, (uint64_t)v); fputs(plan_text(p).c_str(), stdout); return 0;
    }
    if (a[0] == "dump" && a.size() >= 3) {      // the generated packages of a plan, as real files
        Plan p; if (!plan_parse(slurp(a[1]), p)) return 2;
        for (auto &s : p.rpms) { BuiltRpm b = build_rpm(s); std::ofstream(a[2] + "/" + s.id + ".rpm", std::ios::binary).write((const char *)b.rpm.data(), (std::streamsize)b.rpm.size()); }
        return 0;
    }
    if (a[0] == "min" && a.size() >= 3) {
        Plan p; if (!plan_parse(slurp(a[1]), p)) return 2; Result r; r = run_plan(p); if (!r.violated) { printf("no violation\n"); return 0; }
        unsigned t; p = minimise(p, r.vclass, atof(opt("secs", "60").c_str()), t); std::ofstream(a[2]) << plan_text(p); r = run_plan(p); printf("%s: %s (%u tries)\n", r.vclass.c_str(), r.vmsg.c_str(), t); return 1;
    }
    if (a[0] != "check" || a.size() < 2) return 2;
    std::string check = a[1]; bool thorough = opt("tier", "quick") == "thorough";
    uint64_t seed = strtoull(opt("seed", getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1").c_str(), nullptr, 10);
    uint64_t count = strtoull(opt("runs", "1000").c_str(), nullptr, 10); double secs = atof(opt("secs", "100").c_str()); int nw = atoi(opt("workers", "8").c_str());
    std::string out = opt("out", "/verif/evidence"), rdir = opt("replays", "/verif/replays"); load_known(opt("known", "/verif/known_findings.txt"));
    bool keep_going = opt("keep", "") != "";          // development: list all distinct violations
    double t0 = now(), end = t0 + secs;
    struct W { int fd; pid_t pid; std::string buf; bool done = false; }; std::vector<W> ws;
    fflush(nullptr);
    for (int i = 0; i < nw; i++) {
        int pp[2]; if (pipe(pp)) return 2; pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) { close(pp[0]); for (auto &w : ws) close(w.fd); signal(SIGTERM, SIG_DFL); prctl(PR_SET_PDEATHSIG, SIGKILL); worker(pp[1], check, seed, thorough, (uint64_t)i, (uint64_t)nw, count, end); _exit(0); }
        close(pp[1]); ws.push_back({pid ? pp[0] : -1, pid, "", false});
    }
    Agg g; std::vector<std::string> samples; std::string internal, nondet; struct V { uint64_t i; std::string cls, msg, plan; uint64_t hash; }; std::vector<V> vs; bool stop = false;
    uint64_t world = 0; std::vector<V> unsure; std::string exe = slurp("/proc/self/cmdline"); exe = exe.substr(0, exe.find('\0'));
    auto fresh = [&](const std::string &file) { int st = system(("'" + exe + "' replay '" + file + "' --quiet 1 >/dev/null 2>&1").c_str()); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
    auto comes_back = [&](const std::string &plan) { std::string f = "/tmp/drpm_sim_try." + std::to_string(getpid()) + ".plan"; std::ofstream(f) << plan; bool ok = fresh(f) || fresh(f); unlink(f.c_str()); return ok; };
    while (!stop) {
        std::vector<pollfd> pf; for (auto &w : ws) if (!w.done) pf.push_back({w.fd, POLLIN, 0}); if (pf.empty()) break;
        poll(pf.data(), pf.size(), 1000);
        for (auto &w : ws) if (!w.done) {
            bool rd = false; for (auto &q : pf) if (q.fd == w.fd && q.revents) rd = true; if (!rd) continue;
            char b[65536]; ssize_t k = read(w.fd, b, sizeof b); if (k <= 0) { w.done = true; if (k == 0) continue; continue; } w.buf.append(b, (size_t)k);
            size_t nl; while ((nl = w.buf.find('\n')) != std::string::npos) {
                std::string l = w.buf.substr(0, nl); w.buf.erase(0, nl + 1);
                if (l[0] == 'R') g.add(deser(l.substr(2))); else if (l[0] == 'G') g.gate++; else if (l[0] == 'S') { world++; if (samples.size() < 4) samples.push_back(unesc(l.substr(2))); }
                else if (l[0] == 'I') { if (internal.empty()) internal = l.substr(2); } else if (l[0] == 'P') { if (!internal.empty()) { std::ofstream("/tmp/drpm_sim_internal.plan") << unesc(l.substr(2)); } } else if (l[0] == 'X') { if (nondet.empty()) nondet = l.substr(2); }
                else if (l[0] == 'V') { auto v = split(l); V x; x.i = strtoull(v[1].c_str(), nullptr, 10); x.cls = unesc(v[2]); x.hash = strtoull(v[3].c_str(), nullptr, 10); x.msg = unesc(v[4]); x.plan = unesc(v[5]);
                    Result r; r.vclass = x.cls; r.vmsg = x.msg; int ki = known_index(check, r); g.evals++;
                    if (ki >= 0) known_hit.insert((size_t)ki); else if (keep_going) vs.push_back(x); else if (vs.empty()) { if (comes_back(x.plan)) { vs.push_back(x); stop = true; } else if (unsure.size() < 100) unsure.push_back(x); else stop = true; } }
            }
        }
    }
    for (auto &w : ws) { if (stop) kill(w.pid, SIGKILL); close(w.fd); } for (auto &w : ws) { int st; waitpid(w.pid, &st, 0); if (!stop && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && internal.empty()) internal = "a worker died"; }
    if (getenv("DRPM_SIM_COVDUMP")) { FILE *f = fopen(getenv("DRPM_SIM_COVDUMP"), "a"); if (f) { cov_dump(f); fclose(f); } }
    double wall = now() - t0; int rc = 0; std::string replay;
    if (keep_going) { for (auto &v : vs) { printf("FOUND %llu %s: %s\n", (unsigned long long)v.i, v.cls.c_str(), v.msg.c_str()); std::ofstream("/tmp/found_" + check + "_" + std::to_string(v.i) + ".plan") << v.plan; } }
    bool sure = !vs.empty(); if (vs.empty()) vs = unsure;
    if (!vs.empty() && !keep_going) {
        std::sort(vs.begin(), vs.end(), [](const V &x, const V &y) { return x.i < y.i; }); V &v = vs[0]; Plan p; plan_parse(v.plan, p);
        // Everything nondeterministic that drpm may ask for goes through the seams, so a run repeats exactly. Code under test that
        // reads memory it never wrote (or keeps addresses in its decisions) can still differ; then the same violation has to come
        // back in most repetitions to be reported.
        Result r1 = run_plan(p), r2 = run_plan(p); bool timing = v.cls == "hang"; int again = 2;
        if (!timing && (r1.hash != r2.hash || r1.hash != v.hash)) fprintf(stderr, "note: the repetitions of the violating run differ in their traces\n");
        if (!r1.violated || r1.vclass != v.cls) { for (again = 0; again < 8; again++) { r1 = run_plan(p); if (r1.violated && r1.vclass == v.cls) break; } }
        if (!r1.violated) for (again = 0; again < 40 && !r1.violated; again++) r1 = run_plan(p);
        if (r1.violated && r1.vclass != v.cls) { fprintf(stderr, "note: the repetitions end as %s instead of %s\n", r1.vclass.c_str(), v.cls.c_str()); v.cls = r1.vclass; v.msg = r1.vmsg; }   // damaged memory shows in different ways
        if (!r1.violated && sure) { r1.vclass = v.cls; r1.vmsg = v.msg; }      // it comes back in processes of their own only
        else if (!r1.violated || r1.vclass != v.cls) { fprintf(stderr, "a violation (%s: %s) did not reproduce\n", v.cls.c_str(), v.msg.c_str()); std::ofstream("/tmp/drpm_sim_nondet.plan") << v.plan; return 2; }
        unsigned tries = 0; Plan m = r1.violated ? minimise(p, v.cls, atof(opt("minsecs", timing ? "90" : "60").c_str()), tries) : p; Result rm = run_plan(m);
        if (!rm.violated || rm.vclass != v.cls) { m = p; rm = r1; }
        (void)!system(("mkdir -p '" + rdir + "'").c_str());
        replay = rdir + "/" + check + "-" + std::to_string(m.seed) + ".plan";
        bool again_fresh = false;
        for (int which = 0; which < 2; which++) {       // the minimised plan; should it not fail in a fresh process, the original one
            if (which) { m = p; rm = r1; }
            std::ofstream f(replay); f << "# property " << check << ": " << rm.vclass << "\n# " << rm.vmsg << "\n# VERIF_SEED=" << seed << " run=" << v.i << "; replay: /verif/run.sh replay " << replay << "\n" << plan_text(m); f.close();
            // fresh process must fail the same way
            for (int k = 0; k < 4 && !again_fresh; k++) again_fresh = fresh(replay);
            if (again_fresh) break;
        }
        if (!again_fresh) { fprintf(stderr, "replay in a fresh process did not reproduce %s\n", replay.c_str()); return 2; }
        printf("%s: %s\n  minimised with %u trial runs to %zu operation(s), %zu fault(s)\n", rm.vclass.c_str(), rm.vmsg.c_str(), tries, m.ops.size(), m.faults.size());
        printf("VIOLATION property=%s replay=%s\n", check.c_str(), replay.c_str()); rc = 1;
    } else if (!nondet.empty()) { fprintf(stderr, "nondeterminism: two runs of one plan differ: run %s\n", nondet.substr(0, 200).c_str()); auto v = split(nondet); if (v.size() > 1) std::ofstream("/tmp/drpm_sim_nondet.plan") << unesc(v[1]); rc = 2; }
    else if (!internal.empty()) { fprintf(stderr, "simulator error: %s\n", internal.c_str()); rc = 2; }
    else if (g.evals == 0) { fprintf(stderr, "nothing was explored\n"); rc = 2; }
    for (size_t i : known_hit) printf("KNOWN-FINDING: property=%s %s\n", check.c_str(), known[i].text.c_str());
    // evidence
    std::string exe0 = slurp("/proc/self/cmdline"); exe0 = exe0.substr(0, exe0.find('\0')); std::string blocks_file = exe0.substr(0, exe0.rfind('/') + 1) + "blocks";
    std::ostringstream e; e << "{\n \"property\": \"" << check << "\", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << g.evals << ", \"distinct_nontrivial\": " << g.traces.size() << ",\n";
    e << "  \"rule\": \"one evaluation is one simulated run: a generated world (packages, delta options, installed files, cache limits), a sequence of library calls, and the faults and preemptions of its plan; distinct = distinct hashes of the complete event trace (every system call, allocation and library call with its result, and every operation outcome)\",\n";
    e << "  \"simulated_runs_per_hour\": " << (uint64_t)((double)g.evals / wall * 3600) << ", \"seeds_per_hour\": " << (uint64_t)((double)g.evals / (1 + fault_variants(check)) / wall * 3600) << ",\n";
    e << "  \"simulated_events\": " << g.steps << ", \"simulated_time\": \"drpm has no clock; progress is counted in simulated events\", \"operations\": " << g.ops << ",\n";
    e << "  \"drpm_basic_blocks_reached\": " << cov_count() << ", \"drpm_basic_blocks_total\": " << atol(slurp(blocks_file).c_str()) << ", \"distinct_final_states\": " << g.states.size() << ", \"distinct_traces\": " << g.traces.size() << ", \"runs_with_faults_fired\": " << g.faulted_runs << ", \"determinism_gate_double_runs\": " << g.gate << ",\n  \"faults_fired\": {";
    bool first = true; for (int i = 0; i < F_KN; i++) if (g.fired[i]) { e << (first ? "" : ", ") << "\"" << fkind_name[i] << "\": " << g.fired[i]; first = false; }
    e << "},\n  \"probes\": {"; first = true; for (auto &n : g.notes) { e << (first ? "" : ", ") << "\"" << jesc(n.first) << "\": " << n.second; first = false; }
    e << "},\n  \"real_components\": [\"all of /repo/src compiled from the working tree\", \"zlib, bzip2, liblzma, zstd, lzlib\", \"librpm header code and librpmio on the simulated file system\", \"libcrypto digests\"],\n";
    e << "  \"stub_components\": [\"file system and system calls (in memory)\", \"allocator front end (real malloc, injected failures, ledger)\", \"rpm database (list of headers)\", \"fork/exec/wait of the prelink tool (simulated tool)\", \"scheduling of the caller threads (one runs at a time; the plan hands the token over at events or basic blocks)\", \"clock, process id and random numbers\"],\n  \"samples\": [";
    first = true; for (auto &s : samples) { e << (first ? "" : ", ") << "\"" << jesc(s.substr(0, 3000)) << "\""; first = false; } e << "]\n },\n";
    e << " \"assumptions\": [\"faults are those injected at the seams; a sampled search, not an enumeration\", \"failures inside librpm's own allocations are not injected\"],\n \"wall_s\": " << wall << ", \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    (void)!system(("mkdir -p '" + out + "'").c_str()); std::ofstream(out + "/" + check + ".json") << e.str();
    printf("%s %s: %llu runs, %llu with faults, %zu distinct traces, %zu final states, %llu events, %.1f s\n", check.c_str(), rc == 0 ? "held" : rc == 1 ? "BROKEN" : "error", (unsigned long long)g.evals, (unsigned long long)g.faulted_runs, g.traces.size(), g.states.size(), (unsigned long long)g.steps, wall);
    return rc;
}

// Workload and fault generation: one seed -> one plan.
#include "ops.h"
#include <errno.h>
#include <algorithm>

namespace {
struct G {
    Plan p; Rng r; GenOpt o; bool thorough, use_lists = false;
    G(const std::string &c, uint64_t seed, bool t) : r(seed), thorough(t) { p.check = c; p.seed = seed; }
    Op &op(const std::string &k) { p.ops.push_back(Op()); p.ops.back().kind = k; return p.ops.back(); }
    Op &op(const std::string &k, std::vector<std::pair<std::string, std::string>> kv) { Op &x = op(k); for (auto &e : kv) x.a[e.first] = e.second; return x; }
    RpmSpec &rpm(const RpmSpec &s) { p.rpms.push_back(s); return p.rpms.back(); }
    const RpmSpec &get(const std::string &id) { for (auto &s : p.rpms) if (s.id == id) return s; return p.rpms[0]; }
    void knobs() {
        if (r.chance(1, 2)) { p.core = (unsigned)r.range(3, 9); } else if (r.chance(1, 2)) p.core = (unsigned)r.range(10, 60);
        if (r.chance(2, 3)) p.files = (unsigned)r.range(2, 6);
    }
    void size_profile() {
        if (o.noisy) { o.max_files = 4; o.max_size = (uint32_t)(20000u << r.below(3)); return; }
        switch (r.below(10)) {
        case 0: o.max_files = 40; o.max_size = 3000; break;
        case 1: o.max_files = 3; o.max_size = 200000; break;
        case 2: o.max_files = 6; o.max_size = 80000; break;
        case 3: o.max_files = 3; o.max_size = 40; break;
        case 4: if (r.chance(1, 2)) { o.max_files = 75; o.max_size = 1200; o.min_files = 52; } else { o.max_files = 20; o.max_size = 9000; o.links = true; } break;
        default: o.max_files = (int)r.range(2, 14); o.max_size = (uint32_t)(r.chance(1, 2) ? 4000 : 25000); break;
        }
        if (thorough && r.chance(1, 25)) { o.max_files = 5; o.max_size = 900000; }
        if (r.chance(1, 60)) { o.max_files = r.chance(1, 2) ? 290 : 420; o.min_files = r.chance(1, 2) ? 250 : 130; o.max_size = 300; o.links = r.chance(1, 6); }
        else if (r.chance(1, 150)) { o.max_files = 2; o.max_size = 1800000; o.links = false; }
        else if (thorough && r.chance(1, 4000)) { o.max_files = 1; o.max_size = 19000000; o.links = false; }
    }
    int level(int c) { int l = r.chance(1, 2) ? 0 : (int)r.range(1, 9); if (c == 3 || c == 4) { if (!r.chance(1, 20)) l = r.chance(1, 8) ? 0 : r.chance(1, 8) ? 2 : 1; } else if (c == 5) { if (!r.chance(1, 20)) l = (int)r.range(1, 2); } else if (c == 6 && (!l || l > 5) && !r.chance(1, 20)) l = 1 + l % 5; return l; }
    // options for a make operation
    void opts(Op &m, bool rpmonly_ok = true) {
        static const char *C[] = {"none", "gzip", "bzip2", "lzma", "xz", "lzip", "zstd"};
        if (rpmonly_ok && r.chance(1, 6)) m.a["type"] = "rpm";
        else if (o.v1) m.a["ver"] = "1";
        else if (r.chance(1, 5)) m.a["ver"] = "2";
        if (r.chance(1, 2)) { int c = (int)r.below(7); m.a["comp"] = C[c]; int l = level(c); m.a["lvl"] = std::to_string(l); }
        if (r.chance(1, 6)) m.a["noadd"] = "1";
        else if (r.chance(1, 3)) { int c = (int)r.below(7); m.a["acomp"] = C[c]; m.a["alvl"] = std::to_string(level(c)); }
        if (r.chance(1, 4)) m.a["seq"] = m.g("out", "d");
        if (r.chance(1, 30)) { std::string a = m.g("old"), b = m.g("new"), d = m.g("out"); m.a.clear(); m.a["old"] = a; m.a["new"] = b; m.a["out"] = d; m.a["noopts"] = "1"; }
    }
    void world(bool installable = false) {
        size_profile(); o.installable = installable; o.elf = installable && r.chance(1, 5); o.align = r.chance(1, 8); knobs(); o.v1 = r.chance(1, 8);
        RpmSpec a = gen_rpm(r, o, "o"); if (installable) a.src = false;
        rpm(a); rpm(evolve(r, a, o, "n"));
    }
    Op &make(const std::string &a, const std::string &b, const std::string &d, bool rpmonly_ok = true, bool identity = true) {
        std::vector<std::pair<std::string, std::string>> la; if (use_lists && r.chance(1, 8)) la = lists(a, d, true);
        Op &m = op("make", {{"old", a}, {"new", b}, {"out", d}});
        if (identity && r.chance(1, 14)) m.a[r.chance(1, 2) ? "old" : "new"] = "-";
        opts(m, rpmonly_ok); if (!m.n("noopts")) for (auto &e : la) m.a[e.first] = e.second;
        return m;
    }
    // patch lists for package `a`, named l<k>p (print) and l<k>q (patch); returns the attributes of the make operation
    std::vector<std::pair<std::string, std::string>> lists(const std::string &a, const std::string &k, bool odd) {
        const RpmSpec &s = get(a); std::vector<size_t> reg; for (size_t i = 0; i < s.files.size(); i++) if ((s.files[i].mode & 0170000) == 0100000) reg.push_back(i);
        std::string un, in, pun; auto N = [](uint64_t x) { return std::to_string(x); }; unsigned den = (unsigned)r.range(1, 6); static const char *K[] = {"g", "g", "g", "b", "z", "e"};
        for (auto i : reg) if (r.chance(1, den)) { un += N(i) + ";"; if (r.chance(1, 3)) in += N(i) + ":" + K[r.below(6)] + ";"; else if (r.chance(1, 8)) pun += N(i) + ";"; }
        for (size_t i = 0; i < s.files.size(); i++) if (r.chance(1, 4)) in += N(i) + ":" + K[r.below(6)] + ";";
        std::string pin; for (size_t i = 0; i < s.files.size(); i++) if (r.chance(1, 6)) pin += N(i) + ":" + K[r.below(6)] + ";";
        if (!un.empty()) un.pop_back(); if (!in.empty()) in.pop_back(); if (!pun.empty()) pun.pop_back(); if (!pin.empty()) pin.pop_back();
        std::string pp = "/w/l" + k + "p.rpml", pq = "/w/l" + k + "q.rpml"; auto other = [&] { return odd && r.chance(1, 10) ? p.rpms[r.below(p.rpms.size())].id : a; };
        auto rpml = [&](const std::string &n, const std::string &u, const std::string &i) { Op &x = op("rpml", {{"rpm", other()}, {"out", n}, {"seed", N(r.below(1000000))}}); if (!u.empty()) x.a["un"] = u; if (!i.empty()) x.a["in"] = i; };
        bool pkg = odd && r.chance(1, 6);
        if (pkg) {                                  // a package with its files marked as not patched serves as the print
            RpmSpec t = get(a); t.id = "pr" + k; while (std::any_of(p.rpms.begin(), p.rpms.end(), [&](const RpmSpec &x) { return x.id == t.id; })) t.id += "x"; t.cseed++; if (r.chance(4, 5)) t.digest = 1; for (auto &x : split(un, ';')) if (!x.empty()) t.files[(size_t)atol(x.c_str())].flags |= 1024; rpm(t); pp = "/w/" + t.id + ".rpm";
        } else rpml("l" + k + "p", un, pin);
        rpml("l" + k + "q", pun, in);
        if (odd && r.chance(1, 8)) op("mut", {{"m", mutation(r.chance(1, 2) ? pp : pq, r.chance(1, 2) ? 80 : 600)}});
        return {{"pp", pp}, {"pq", pq}};
    }
    std::string src_of(const Op &m) { std::string a = m.g("old"); return a == "-" || a.empty() ? m.g("new") : a; }
    void install(const std::string &id, bool prelink) {
        const RpmSpec &s = get(id); std::string pre;
        bool near = r.chance(1, 6); if (o.elf && !prelink && r.chance(1, 2)) { prelink = true; op("tool", {{"on", "1"}}); }
        if (prelink) for (size_t i = 0; i < s.files.size(); i++) { auto &f = s.files[i]; if ((f.mode & 0170000) == 0100000 && (f.c.kind == 'e' || f.c.kind == 'x') && f.c.size >= 600 && r.chance(2, 3)) pre += std::to_string(i) + ":" + std::to_string(1 + r.below(100000)) + (near && r.chance(1, 3) ? ":n;" : ";"); }
        Op &q = op("install", {{"rpm", id}}); if (!pre.empty()) q.a["pre"] = pre;
    }
    std::string mutation(const std::string &path, uint64_t approx) {
        uint64_t n = approx ? approx : 1; std::string s; auto N = [](uint64_t x) { return std::to_string(x); };
        switch (r.below(11)) {
        case 9: case 10: {
            static const unsigned tags[] = {1000, 1001, 1002, 1003, 1022, 1027, 1028, 1029, 1030, 1033, 1034, 1035, 1036, 1037, 1045, 1106, 1116, 1117, 1118, 1124, 1125, 1126, 1140, 5011};
            static const uint32_t odd[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 0x2f000000, 64};
            uint64_t f = r.below(6); uint64_t v = f == 0 ? tags[r.below(24)] : f == 1 || f == 5 ? r.below(11) : f == 4 ? odd[r.below(10)] : r.chance(1, 2) ? r.below(300) : odd[r.below(10)];
            s = "hdr " + path + " " + N(r.chance(2, 3) ? 1000000 + tags[r.below(24)] : r.below(40)) + " " + N(f == 5 ? 1 : f) + " " + N(v); break; }
        case 0: case 1: case 2: s = "flip " + path + " " + N(r.below(n)) + " " + N(r.below(8)); break;
        case 3: s = "trunc " + path + " " + N(r.below(n + 1)); break;
        case 4: s = "append " + path + " " + N(r.below(100000)) + " " + N(1 + r.below(300)); break;
        case 5: s = "rand " + path + " " + N(r.below(n)) + " " + N(1 + r.below(64)) + " " + N(r.below(1000000)); break;
        case 6: s = "zero " + path + " " + N(r.below(n)) + " " + N(1 + r.below(r.chance(1, 3) ? 4096 : 16)); break;
        case 7: s = "dup " + path + " " + N(r.below(n)) + " " + N(r.below(n)) + " " + N(1 + r.below(200)); break;
        case 8: s = "rm " + path; break;
        }
        return s;
    }
    std::string fs_target(const std::string &id, bool any = false) {
        const RpmSpec &s = get(id); std::vector<std::string> v;
        for (auto &f : s.files) if ((any || (f.mode & 0170000) == 0100000) && f.path.find_first_of(" %") == std::string::npos && !f.ghost) v.push_back(f.path);
        return v.empty() ? "" : r.pick(v);
    }
    uint64_t fs_size(const std::string &id, const std::string &path) { for (auto &f : get(id).files) if (f.path == path) return f.c.size; return 100; }
    // same identity as `from`, other contents: what a rebuilt or tampered package looks like
    RpmSpec twin(const RpmSpec &from, const std::string &id) {
        RpmSpec s = from; s.id = id; s.cseed = 1 + r.below(1000000);
        for (int tries = 0; tries < 1 + (int)r.below(3); tries++) {
            if (s.files.empty()) break;
            FileSpec &f = s.files[r.below(s.files.size())];
            unsigned ty = f.mode & 0170000;
            switch (r.below(10)) {
            case 9: s.sigmd5 = !s.sigmd5; break;
            case 6: if (ty == 0020000 || ty == 0060000) f.rdev = (uint16_t)(f.rdev ^ (1u << r.below(16))); else f.mode ^= 0111; break;
            case 7: if (ty == 0100000) f.mode ^= 0100; else if (ty == 0020000 || ty == 0060000) f.mode ^= 0040000; else f.mode ^= 0002; break;
            case 8: if (f.ghost) break; f.flags ^= r.chance(1, 2) ? 1u : 2u; break;
            case 0: case 1: if ((f.mode & 0170000) == 0100000) f.c.seed ^= 1 + r.below(1000); break;
            case 2: if ((f.mode & 0170000) == 0100000) f.c.size += 1; break;
            case 3: f.path += "z"; break;
            case 4: if (f.mode == 0120777) f.link += "q"; break;
            case 5: s.files.erase(s.files.begin() + (long)r.below(s.files.size())); break;
            }
        }
        std::map<int, Content> hc; for (auto &f : s.files) if (f.hard) { if (!hc.count(f.hard)) hc[f.hard] = f.c; else f.c = hc[f.hard]; }
        std::sort(s.files.begin(), s.files.end(), [](const FileSpec &a, const FileSpec &b) { return a.path < b.path; });
        return s;
    }
    std::string rr_spec() {   // regular alternation: every k events or basic blocks
        auto N = [](uint64_t x) { return std::to_string(x); }; bool bl = r.chance(1, 3);
        if (r.chance(1, 4)) return "s:" + N(r.chance(1, 2) ? 1 : r.range(1, 1 << r.range(1, 8))) + ":" + N(r.chance(2, 3) ? 0 : r.below(1ull << r.range(1, 12))) + ":" + N(20 + r.below(1ull << r.range(4, 14)));
        return std::string(bl ? "b:" : "e:") + N(bl ? 1 + r.below(1ull << r.range(2, 12)) : r.range(1, r.chance(1, 2) ? 4 : 40)) + ":" + N(r.chance(1, 2) ? 0 : r.below(1ull << r.range(1, 12))) + ":" + N(20 + r.below(1ull << r.range(4, 12)));
    }
    std::string pre_list(int n, int lo, int hi) {
        std::vector<uint64_t> ev; int k = (int)r.range(lo, hi); uint64_t span = 1ull << r.range(4, 13);
        for (int i = 0; i < k; i++) ev.push_back(r.below(span)); std::sort(ev.begin(), ev.end());
        std::string s; bool fine = r.chance(2, 3);       // fine: also inside drpm's own code, some basic blocks after the event
        for (auto e : ev) s += std::to_string(e) + (fine && r.chance(2, 3) ? "+" + std::to_string(1 + r.below(1ull << r.range(0, 13))) : "") + ":" + std::to_string(r.below((uint64_t)n)) + ";";
        return s;
    }
};
std::string script(Rng &r) {
    std::string s; int n = (int)r.range(1, r.chance(1, 4) ? 16 : 8);
    for (int i = 0; i < n; i++) {
        std::string t;
        switch (r.below(13)) {
        case 12: { static const char *q[] = {"lists:/w/ldp.rpml:/w/ldq.rpml", "lists:/w/lep.rpml:/w/leq.rpml", "lists:/w/lep.rpml:/w/leq.rpml", "lists:/w/none:/w/ldq.rpml"}; t = q[r.below(4)]; break; }
        case 0: t = "type:" + std::to_string(r.chance(1, 5) ? r.below(9) : r.below(2)); break;
        case 1: t = "ver:" + std::to_string(r.chance(1, 4) ? r.below(70000) % 65536 : r.range(1, 3)); break;
        case 2: case 3: { uint64_t c = r.chance(1, 6) ? r.below(20) : r.below(7); uint64_t l = r.chance(1, 6) ? r.below(30) : r.below(10); if (c == 6 && l == 0) l = 4; t = "comp:" + std::to_string(c) + ":" + std::to_string(l); break; }
        case 4: t = "fromrpm"; break;
        case 5: t = "noadd"; break;
        case 6: { uint64_t c = r.chance(1, 6) ? r.below(20) : r.below(7); uint64_t l = r.chance(1, 6) ? r.below(30) : r.below(10); if (c == 6 && l == 0) l = 4; t = "acomp:" + std::to_string(c) + ":" + std::to_string(l); break; }
        case 7: { static const char *q[] = {"seq", "seq:/w/s1.seq", "seq:/w/s2.seq", "seq:/w/a-longer-name-for-the-sequence.seq"}; t = q[r.below(4)]; break; }
        case 8: t = r.chance(1, 3) ? "defaults" : "fromrpm"; break;
        case 9: t = "copyout"; break;
        case 10: t = "copyin"; break;
        case 11: t = r.chance(1, 3) ? "null" : "seq:/w/s1.seq"; break;
        }
        s += (i ? "," : "") + t;
    }
    return s;
}
}

static void gen_C01(G &g) {
    g.world();
    int n = (int)g.r.range(1, 2);
    for (int i = 0; i < n; i++) {
        std::string d = "d" + std::to_string(i); Op m = g.make("o", "n", d);
        g.op("apply", {{"old", g.src_of(m)}, {"delta", d}, {"out", "r" + std::to_string(i)}});
        if (g.r.chance(1, 4)) g.op("read", {{"delta", d}});
    }
    if (g.r.chance(1, 5)) { Op m = g.make("n", "o", "back"); g.op("apply", {{"old", g.src_of(m)}, {"delta", "back"}, {"out", "rb"}}); }
}
static void gen_C02(G &g) {
    bool fs = g.r.chance(1, 3); g.world(fs);
    Op m = g.make("o", "n", "d", !fs);
    std::string s = g.src_of(m);
    if (fs) { bool pl = g.r.chance(1, 3); if (pl || g.r.chance(1, 2)) g.op("tool", {{"on", "1"}}); g.install(s, pl); }
    if (g.r.chance(1, 4)) { g.op("apply", {{"old", fs ? "-" : s}, {"delta", "d"}, {"out", "r"}}); }     // a complete older output is in place
    g.op("apply", {{"old", fs ? "-" : s}, {"delta", "d"}, {"out", "r"}});
}
static void gen_C03(G &g) {
    g.world();
    if (g.r.chance(1, 4)) g.op("make", {{"old", "n"}, {"new", "o"}, {"out", "d"}, {"seq", "d"}});
    Op &m = g.make("o", "n", "d"); if (g.r.chance(1, 2) && !m.n("noopts")) m.a["seq"] = "d";
}
static void gen_mixed(G &g, bool damage) {
    bool fs = g.r.chance(1, 2); g.world(fs);
    Op m = g.make("o", "n", "d", !fs || g.r.chance(1, 4)); std::string s = g.src_of(m);
    if (fs) { bool pl = g.r.chance(1, 3); if (pl || g.r.chance(1, 2)) g.op("tool", {{"on", "1"}}); g.install(s, pl); }
    int k = (int)g.r.range(1, 4);
    for (int i = 0; i < k; i++) {
        if (fs && g.r.chance(1, 3)) { std::string t = g.fs_target(s); if (!t.empty()) g.op("mut", {{"m", g.mutation(t, g.fs_size(s, t))}}); }
        if (damage && g.r.chance(1, 3)) g.op("mut", {{"m", g.mutation(g.r.chance(3, 4) ? "/w/d.drpm" : "/w/o.rpm", 20000)}});
        switch (g.r.below(fs || g.r.chance(1, 8) ? 6 : 4)) {
        case 0: g.op("apply", {{"old", (fs ? g.r.chance(2, 3) : g.r.chance(1, 6)) ? "-" : s}, {"delta", "d"}, {"out", "r"}}); break;
        case 1: g.op("read", {{"delta", "d"}}); break;
        case 2: g.op("chkseq", {{"old", s}, {"delta", "d"}, {"mode", "0"}}); if (g.r.chance(1, 3)) g.p.ops.back().a["damage"] = std::to_string(g.r.below(100000)); break;
        case 3: { Op &q = g.make("n", "o", "e"); (void)q; break; }
        case 4: g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); break;
        case 5: g.op("chkseq", {{"old", "-"}, {"delta", "d"}, {"mode", std::to_string(g.r.below(3))}}); break;
        }
    }
}
static void gen_C06(G &g) {
    g.o.installable = true; g.world(true); g.p.files = (unsigned)g.r.range(2, 8); if (g.r.chance(3, 4)) g.p.core = (unsigned)g.r.range(3, 12);
    bool pl = g.r.chance(1, 2); if (pl ? g.r.chance(9, 10) : g.r.chance(1, 3)) g.op("tool", {{"on", "1"}});
    Op m = g.make("o", "n", "d", false); std::string s = g.src_of(m);
    g.install(s, pl);
    g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "r"}});
    if (g.r.chance(1, 2)) {
        std::string t = g.fs_target(s, g.r.chance(1, 4)); if (!t.empty()) g.op("mut", {{"m", g.mutation(t, g.fs_size(s, t))}});
        g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "r2"}});
    }
    if (g.r.chance(1, 4)) { g.op("uninstall", {{"rpm", s}}); g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "r3"}}); }
}
static void gen_C07(G &g) {
    g.world(true); RpmSpec x = g.twin(g.get("o"), "x"); g.rpm(x);
    bool pl = g.r.chance(1, 3); if (pl ? g.r.chance(5, 6) : g.r.chance(1, 3)) g.op("tool", {{"on", "1"}});
    Op m = g.make("o", "n", "d"); std::string s = g.src_of(m);
    int k = (int)g.r.range(2, 5); bool inst = false; std::string who;
    for (int i = 0; i < k; i++) {
        if (!inst && g.r.chance(5, 6)) { who = g.r.chance(1, 6) && s == "o" ? "x" : s; g.install(who, pl); inst = true; }
        else if (inst && g.r.chance(1, 10)) { g.op("uninstall", {{"rpm", who}}); inst = false; }
        if (inst && g.r.chance(1, 2)) { std::string t = g.fs_target(who, g.r.chance(1, 6)); if (!t.empty()) g.op("mut", {{"m", g.mutation(t, g.fs_size(who, t))}}); }
        switch (g.r.below(4)) {
        case 0: case 1: g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); break;
        case 2: g.op("chkseq", {{"old", "-"}, {"delta", "d"}, {"mode", std::to_string(g.r.below(3))}}); break;
        case 3: g.op("chkseq", {{"old", g.r.chance(1, 2) ? s : g.r.chance(1, 2) ? "x" : "n"}, {"delta", "d"}, {"mode", "0"}}); break;
        }
        if ((g.p.ops.back().kind == "chkseq") && g.r.chance(1, g.p.ops.back().g("old") == "-" ? 8 : 4)) g.p.ops.back().a["damage"] = std::to_string(g.r.below(100000));
    }
}
static void gen_C08(G &g) {
    bool fs = g.r.chance(1, 2); g.world(fs);
    g.rpm(g.twin(g.get("o"), "x")); { RpmSpec y = evolve(g.r, g.get("o"), g.o, "y"); if (g.r.chance(1, 2)) { y.name = g.get("o").name; y.ver = g.get("o").ver; y.rel = g.get("o").rel; y.epoch = g.get("o").epoch; } g.rpm(y); }
    Op m = g.make("o", "n", "d", true, false);
    int k = (int)g.r.range(1, 3); static const char *W[] = {"x", "x", "y", "n", "o"}; std::string inst;
    for (int i = 0; i < k; i++) {
        std::string w = W[g.r.below(5)];
        if (fs && g.r.chance(2, 3)) { if (!inst.empty()) g.op("uninstall", {{"rpm", inst}}); if (g.r.chance(4, 5)) { g.install(w, false); inst = w; } else inst = ""; g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "r" + std::to_string(i)}}); }
        else g.op("apply", {{"old", g.r.chance(1, 10) ? "-" : w}, {"delta", "d"}, {"out", "r" + std::to_string(i)}});
        if (g.r.chance(1, 3)) g.op("chkseq", {{"old", w}, {"delta", "d"}, {"mode", "0"}});
    }
}
static void gen_C09(G &g) {
    g.world(); int k = (int)g.r.range(1, 3);
    for (int i = 0; i < k; i++) { std::string d = "d" + std::to_string(i); g.make("o", "n", d); g.op("read", {{"delta", d}}); }
}
static void gen_C10(G &g) {
    bool fs = g.r.chance(1, 2); g.world(fs); bool pl = fs && g.r.chance(1, 2); if (pl) g.op("tool", {{"on", "1"}});
    Op m = g.make("o", "n", "d", !fs); std::string s = g.src_of(m); if (fs) g.install(s, pl);
    int k = (int)g.r.range(1, 2);
    for (int i = 0; i < k; i++) switch (g.r.below(fs ? 4 : 3)) {
        case 0: g.op("apply", {{"old", fs ? "-" : s}, {"delta", "d"}, {"out", "r"}}); break;
        case 1: { Op &q = g.make("n", "o", "e"); if (!q.n("noopts") && g.r.chance(1, 2)) q.a["seq"] = "e"; break; }
        case 2: if (g.r.chance(1, 2)) g.op("read", {{"delta", "d"}}); else g.op("chkseq", {{"old", s}, {"delta", "d"}, {"mode", "0"}}); break;
        case 3: g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); break;
    }
}
static void gen_C11(G &g) {
    bool fs = g.r.chance(1, 3), noisy = g.r.chance(1, 2);   // noisy: several calls stream a lot of data through the same compressor
    if (noisy) { static const char *C[] = {"gzip", "gzip", "bzip2", "xz", "lzma", "zstd"}; g.o.force_comp = C[g.r.below(6)]; g.o.noisy = true; }
    g.world(fs); bool pl = fs && g.r.chance(1, 3); if (pl) g.op("tool", {{"on", "1"}});
    g.rpm(evolve(g.r, g.get("n"), g.o, "q"));
    Op m = g.make("o", "n", "d", !fs, false), m2 = m; g.make("n", "q", "e", true, false); 
    if (noisy && g.r.chance(2, 3)) for (auto &q : g.p.ops) if (q.kind == "make" && !q.n("noopts")) { q.a["comp"] = g.o.force_comp; q.a["lvl"] = std::to_string(g.level(g.o.force_comp == "xz" ? 4 : g.o.force_comp == "lzma" ? 3 : g.o.force_comp == "zstd" ? 6 : 1)); }
    for (auto &q : g.p.ops) if (q.kind == "make" && q.g("out") == "d") m = m2 = q;
    Op me = g.p.ops.back();
    if (fs) g.install("o", pl);
    g.op("apply", {{"old", "o"}, {"delta", "d"}, {"out", "r"}}); std::string es = g.src_of(me); bool ae = g.r.chance(1, 2); if (ae) g.op("apply", {{"old", es}, {"delta", "e"}, {"out", "s"}});
    int n = (int)g.r.range(2, 4); g.op("par", {{"n", std::to_string(n)}});
    if (g.r.chance(1, 2)) g.p.ops.back().a["pre"] = g.pre_list(n, 1, 24); else g.p.ops.back().a["rr"] = g.rr_spec();
    std::vector<std::pair<std::string, std::string>> cmp; int id = 0;
    for (int i = 0; i < n; i++) {
        std::string x = std::to_string(id++);
        switch (g.r.below(fs ? 7 : 6)) {
        case 0: { Op q = m2; q.a["out"] = "p" + x; if (q.a.count("seq")) q.a["seq"] = "p" + x; g.p.ops.push_back(q); cmp.push_back({"/w/d.drpm", "/w/p" + x + ".drpm"}); break; }
        case 1: { Op q = me; q.a["out"] = "p" + x; if (q.a.count("seq")) q.a["seq"] = "p" + x; g.p.ops.push_back(q); cmp.push_back({"/w/e.drpm", "/w/p" + x + ".drpm"}); break; }
        case 2: case 3: if (ae && g.r.chance(1, 2)) { g.op("apply", {{"old", es}, {"delta", "e"}, {"out", "p" + x}}); cmp.push_back({"/w/s.out", "/w/p" + x + ".out"}); break; }
            g.op("apply", {{"old", "o"}, {"delta", "d"}, {"out", "p" + x}}); cmp.push_back({"/w/r.out", "/w/p" + x + ".out"}); break;
        case 4: g.op("read", {{"delta", g.r.chance(1, 2) ? "d" : "e"}}); break;
        case 5: g.op("chkseq", {{"old", "o"}, {"delta", "d"}, {"mode", "0"}}); if (g.r.chance(1, 4)) g.p.ops.back().a["damage"] = std::to_string(g.r.below(100000)); break;
        case 6: if (g.r.chance(1, 2)) g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "p" + x}}); else g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); break;
        }
    }
    Op again = m2; again.a["out"] = "z"; if (again.a.count("seq")) again.a["seq"] = "z"; g.p.ops.push_back(again); cmp.push_back({"/w/d.drpm", "/w/z.drpm"});
    for (auto &c : cmp) g.op("same", {{"a", c.first}, {"b", c.second}});
}
static void gen_C12(G &g) {
    bool fs = g.r.chance(1, 3); g.world(fs); bool pl = fs && g.r.chance(1, 2); if (pl) g.op("tool", {{"on", "1"}});
    Op m = g.make("o", "n", "d", !fs); std::string s = g.src_of(m); if (fs) g.install(s, pl);
    int k = (int)g.r.range(1, 3);
    if (g.r.chance(1, 2)) {
        Op q = m; q.a["out"] = "e"; if (q.a.count("seq")) q.a["seq"] = "e";
        for (int i = 0; i <= k; i++) g.p.ops.push_back(q);
        g.op("same", {{"a", "/w/d.drpm"}, {"b", "/w/e.drpm"}});
        g.op("apply", {{"old", s}, {"delta", "e"}, {"out", "r"}});
    } else {
        for (int i = 0; i <= k; i++) g.op("apply", {{"old", fs ? "-" : s}, {"delta", "d"}, {"out", "r"}});
    }
    g.p.seed = g.p.seed;
}
static void gen_C13(G &g) {
    g.world(); int k = (int)g.r.range(1, 2); if (g.r.chance(4, 5)) { g.lists("o", "d", false); g.lists("o", "e", false); }
    for (int i = 0; i < k; i++) { std::string d = "d" + std::to_string(i); g.op("make", {{"old", "o"}, {"new", "n"}, {"out", d}, {"script", script(g.r)}}); if (g.r.chance(1, 3)) g.op("apply", {{"old", "o"}, {"delta", d}, {"out", "r" + std::to_string(i)}}); }
}
static void gen_C16(G &g) {
    bool fs = g.r.chance(2, 3); g.o.installable = fs; g.world(fs); bool pl = fs && g.r.chance(1, 5); if (pl || g.r.chance(1, 6)) g.op("tool", {{"on", "1"}});
    for (auto &s : g.p.rpms) if (g.r.chance(1, 2)) s.digest = 1;
    bool odd = g.r.chance(2, 5); if (odd) g.rpm(g.twin(g.get("o"), "x")); if (odd && g.r.chance(1, 3)) { auto &x = g.p.rpms.back(); if (g.r.chance(1, 2)) x.rel += "x"; else x.epoch = x.epoch < 0 ? 0 : -1; }
    auto la = g.lists("o", "d", odd); Op &mm = g.make("o", "n", "d", !fs || g.r.chance(1, 10)); for (auto &e : la) mm.a[e.first] = e.second; Op m = mm; std::string s = g.src_of(m);
    if (fs) g.install(s, pl);
    std::vector<std::string> un; for (auto &q : g.p.ops) if (q.kind == "rpml" && q.g("out") == "ldp") for (auto &x : split(q.g("un"), ';')) if (!x.empty()) { auto &f = g.get("o").files[(size_t)atol(x.c_str()) % g.get("o").files.size()]; if (f.path.find_first_of(" %") == std::string::npos) un.push_back(f.path); }
    int k = (int)g.r.range(1, 4);
    for (int i = 0; i < k; i++) {
        if (fs && g.r.chance(1, 2)) for (auto &t : un) if (g.r.chance(1, 2)) g.op("mut", {{"m", g.r.chance(1, 4) ? "rm " + t : g.mutation(t, g.fs_size(s, t))}});
        if (fs && g.r.chance(1, 6)) { std::string t = g.fs_target(s); if (!t.empty()) g.op("mut", {{"m", g.mutation(t, g.fs_size(s, t))}}); }
        switch (g.r.below(fs ? 6 : 3)) {
        case 0: g.op("apply", {{"old", s}, {"delta", "d"}, {"out", "r"}}); break;
        case 1: g.op("chkseq", {{"old", g.r.chance(3, 4) ? s : "n"}, {"delta", "d"}, {"mode", "0"}}); break;
        case 2: if (g.r.chance(1, 2)) g.op("read", {{"delta", "d"}}); else { Op q = m; q.a["out"] = "e"; if (q.a.count("seq")) q.a["seq"] = "e"; g.p.ops.push_back(q); } break;
        case 3: case 4: g.op("apply", {{"old", "-"}, {"delta", "d"}, {"out", "r" + std::to_string(i)}}); break;
        case 5: if (g.r.chance(1, 2)) g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); else g.op("chkseq", {{"old", "-"}, {"delta", "d"}, {"mode", std::to_string(g.r.below(3))}}); break;
        }
    }
}
static void gen_C14(G &g) {
    bool fs = g.r.chance(1, 3); g.world(fs); if (fs && g.r.chance(1, 3)) g.op("tool", {{"on", "1"}});
    Op m = g.make("o", "n", "d"); std::string s = g.src_of(m); if (fs) g.install(s, g.r.chance(1, 3));
    int k = (int)g.r.range(1, 3);
    for (int i = 0; i < k; i++) {
        switch (g.r.below(8)) {
        case 0: g.op("mut", {{"m", g.mutation("/w/d.drpm", 3000)}}); break;
        case 1: g.op("mut", {{"m", g.mutation("/w/d.drpm", 300)}}); break;
        case 2: case 3: case 4: case 5: {    // structure-aware damage inside the compressed body
            std::string x; Rng &r = g.r; static const uint32_t odd[] = {0, 1, 2, 3, 7, 8, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x40000000, 0x20000000, 0x10000000, 65535, 65536, 0x3fffffff};
            uint64_t span = r.chance(1, 2) ? 400 : r.chance(1, 2) ? 4000 : 40000;
            switch (r.below(8)) {
            case 6: x = "set32 @ 0 " + std::to_string(odd[r.below(16)]); break;
            case 7: x = "ver"; break;
            case 0: case 1: x = "set32 @ " + std::to_string(r.below(span)) + " " + std::to_string(odd[r.below(16)]); break;
            case 2: x = "flip @ " + std::to_string(r.below(span)) + " " + std::to_string(r.below(8)); break;
            case 3: x = "trunc @ " + std::to_string(r.below(span)); break;
            case 4: x = "rand @ " + std::to_string(r.below(span)) + " " + std::to_string(1 + r.below(8)) + " " + std::to_string(r.below(100000)); break;
            case 5: x = "append @ " + std::to_string(r.below(100000)) + " " + std::to_string(1 + r.below(300)); break;
            }
            g.op("bmut", {{"delta", "d"}, {"m", x}}); if (x == "ver") g.p.ops.back().a["count"] = std::to_string(r.chance(1, 4) ? r.below(10) : 1 + r.below(3)); else if (x.compare(0, 9, "set32 @ 0") == 0) g.p.ops.back().a["count"] = std::to_string(r.below(16)); else if (r.chance(1, 2)) g.p.ops.back().a["field"] = std::to_string(r.below(64));
            break; }
        case 6: g.op("mut", {{"m", g.mutation("/w/o.rpm", 6000)}}); break;
        case 7: g.op("cmut", {{"rpm", g.r.chance(2, 3) ? "o" : "n"}, {"m", "rand @ " + std::to_string(g.r.below(g.r.chance(1, 2) ? 300 : 30000)) + " " + std::to_string(1 + g.r.below(8)) + " " + std::to_string(g.r.below(100000))}}); if (g.r.chance(1, 3)) g.p.ops.back().a["m"] = "trunc @ " + std::to_string(g.r.below(5000)); else if (g.r.chance(1, 2)) { static const uint32_t odd[] = {0, 1, 2, 3, 4, 5, 8, 109, 110, 111, 4096, 65535, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}; g.p.ops.back().a["m"] = "entry " + std::to_string(g.r.below(20)) + " " + std::to_string(g.r.chance(1, 2) ? (g.r.chance(1, 2) ? 11 : 6) : g.r.below(13)) + " " + (g.r.chance(2, 3) ? std::to_string(odd[g.r.below(16)]) : g.r.chance(1, 2) ? "+" + std::to_string(1 + g.r.below(6)) : "-" + std::to_string(1 + g.r.below(6))); } break;
        }
        int q = (int)g.r.range(1, 2);
        for (int j = 0; j < q; j++) switch (g.r.below(7)) {
            case 0: case 1: g.op("read", {{"delta", "d"}}); break;
            case 2: case 3: case 4: g.op("apply", {{"old", fs && g.r.chance(1, 2) ? "-" : s}, {"delta", "d"}, {"out", "r"}}); break;
            case 5: if (fs) g.op("check", {{"delta", "d"}, {"mode", std::to_string(g.r.range(1, 2))}}); else g.op("chkseq", {{"old", s}, {"delta", "d"}, {"mode", "0"}, {"damage", std::to_string(g.r.below(100000))}}); break;
            case 6: g.make("o", "n", "e"); break;
        }
    }
}

Plan gen_plan(const std::string &check, uint64_t seed, bool thorough) {
    G g(check, seed, thorough);
    static const std::set<std::string> with_lists = {"C01", "C03", "C04", "C05", "C10", "C11", "C12"}; g.use_lists = with_lists.count(check);
    if (check == "C01") gen_C01(g); else if (check == "C02") gen_C02(g); else if (check == "C03") gen_C03(g);
    else if (check == "C04") gen_mixed(g, true); else if (check == "C05") gen_mixed(g, true);
    else if (check == "C06") gen_C06(g); else if (check == "C07") gen_C07(g); else if (check == "C08") gen_C08(g); else if (check == "C09") gen_C09(g);
    else if (check == "C10") gen_C10(g); else if (check == "C11") gen_C11(g); else if (check == "C12") gen_C12(g); else if (check == "C13") gen_C13(g); else if (check == "C16") gen_C16(g); else gen_C14(g);
    // calls that cannot mean anything
    static const std::map<std::string, int> with_misuse = {{"C04", 8}, {"C05", 12}, {"C10", 12}, {"C13", 4}};
    { auto w = with_misuse.find(check); if (w != with_misuse.end() && g.r.chance(1, (uint64_t)w->second)) { Op q; q.kind = "misuse"; q.a = {{"old", "o"}, {"delta", g.r.chance(1, 2) ? "d" : "d0"}, {"seed", std::to_string(g.r.below(1000))}}; g.p.ops.insert(g.p.ops.begin() + (long)g.r.below(g.p.ops.size() + 1), q); } }
    // options objects with a history
    static const std::map<std::string, int> with_script = {{"C04", 10}, {"C05", 6}, {"C10", 12}};
    { auto w = with_script.find(check); if (w != with_script.end() && g.r.chance(1, (uint64_t)w->second)) { if (g.r.chance(1, 3)) g.lists("o", "e", false); Op q; q.kind = "make"; q.a = {{"old", "o"}, {"new", "n"}, {"out", "ds"}, {"script", script(g.r)}}; g.p.ops.push_back(q); } }
    // patch lists are compared with the digests as they are written, so that the same digest in capitals may count as another one
    for (auto &o : g.p.ops) if (o.kind == "rpml") for (auto &s : g.p.rpms) for (auto &f : s.files) f.badsize &= ~8;
    // deltas that other tools might have written
    static const std::map<std::string, int> with_craft = {{"C01", 5}, {"C02", 4}, {"C04", 4}, {"C05", 8}, {"C06", 2}, {"C07", 6}, {"C08", 6}, {"C09", 2}, {"C10", 8}, {"C11", 4}, {"C12", 5}, {"C14", 3}};
    auto w = with_craft.find(check);
    if (w != with_craft.end() && g.r.chance(1, (uint64_t)w->second)) {
        std::vector<Op> out; int left = 0; std::set<std::string> moved;
        for (auto &o : g.p.ops) {
            if (check == "C11" && moved.count(o.g("delta"))) o.a["delta"] = o.g("delta") + "c";     // the delta itself stays for comparison
            out.push_back(o); if (o.kind == "par") { left = (int)o.n("n"); continue; }
            if (left > 0) { left--; continue; }
            if (o.kind == "make") { Op s; s.kind = "craft"; s.a = {{"delta", o.g("out")}, {"seed", std::to_string(g.r.below(1000000))}}; if (check == "C11") { s.a["out"] = o.g("out") + "c"; moved.insert(o.g("out")); } out.push_back(s); }
        }
        g.p.ops = out;
    }
    // now and then a longer or shorter file is in the place of an output already
    static const std::set<std::string> with_stale = {"C01", "C02", "C03", "C06", "C10", "C12", "C13"};
    if (with_stale.count(check) && g.r.chance(1, 2)) {
        std::set<std::string> done; std::vector<Op> out;
        for (auto &o : g.p.ops) {
            std::string f = o.kind == "make" ? "/w/" + o.g("out") + ".drpm" : o.kind == "apply" ? "/w/" + o.g("out") + ".out" : "";
            if (!f.empty() && done.insert(f).second && g.r.chance(1, 2)) { Op s; s.kind = "stale"; s.a = {{"path", f}, {"size", std::to_string(1 + g.r.below(1ull << g.r.range(1, 19)))}, {"seed", std::to_string(g.r.below(100000))}}; out.push_back(s); }
            out.push_back(o);
        }
        g.p.ops = out;
    }
    return g.p;
}

// ------------------------------------------------------------------ faults
int fault_variants(const std::string &c) { static const std::map<std::string, int> v = {{"C01", 1}, {"C02", 8}, {"C03", 8}, {"C04", 8}, {"C05", 8}, {"C06", 2}, {"C07", 3}, {"C08", 1}, {"C09", 2}, {"C10", 6}, {"C11", 3}, {"C12", 6}, {"C13", 6}, {"C14", 1}, {"C16", 1}}; auto i = v.find(c); return i == v.end() ? 1 : i->second; }
bool wants_faults(const std::string &c) { return fault_variants(c) > 0; }

static Fault one_fault(Rng &r, const OpInfo &oi, int op, const std::string &check, const Plan &p) {
    Fault f; f.op = op; const uint64_t *c = oi.cnt;
    struct W { int cls; unsigned w; }; std::vector<W> ws;
    auto add = [&](int cls, unsigned w) { if (c[cls] && w) ws.push_back({cls, w}); };
    bool mem_only = check == "C13", benign = check == "C01";
    add(C_ALLOC, benign ? 0 : mem_only ? 90 : 28); if (!mem_only) { add(C_READ, 18); add(C_WRITE, 20); if (!benign) { add(C_OPEN, 9); add(C_CLOSE, 9); add(C_META, 6); add(C_UNLINK, 3); add(C_DB, 5); } }
    if (!benign) { add(C_LIB, 15); add(C_PROC, 14); if (!mem_only) { add(C_HASH, 5); add(C_IREAD, 10); add(C_IFILE, 6); } }
    if (!mem_only) add(C_TMPIO, benign ? 8 : 6);
    if (!mem_only && !benign) add(C_ANY, 10);
    if (ws.empty()) { f.cls = C_ANY; f.nth = ~0ull; f.kind = F_NULL; return f; }
    unsigned tot = 0; for (auto &w : ws) tot += w.w; unsigned x = (unsigned)r.below(tot); for (auto &w : ws) { if (x < w.w) { f.cls = w.cls; break; } x -= w.w; }
    uint64_t n = c[f.cls];
    switch (r.below(5)) { case 0: f.nth = n - 1 - r.below(std::min<uint64_t>(n, 8)); break; case 1: f.nth = r.below(std::min<uint64_t>(n, 20)); break; default: f.nth = r.below(n); }
    bool data_faults = check == "C02" || check == "C04" || check == "C05" || check == "C14" || check == "C10" || check == "C08" || check == "C06" || check == "C12";
    if ((check == "C12" || check == "C03" || check == "C10") && p.ops[(size_t)op].kind == "make" && check != "C10") data_faults = false;   // garbage in, garbage out
    if (check == "C12") data_faults = p.ops[(size_t)op].kind == "apply";
    static const int oerr[] = {EIO, EMFILE, EACCES, ENOENT, ENOMEM, EROFS, EINTR}, rerr[] = {EIO, EINTR, ESTALE, ENOMEM}, werr[] = {EIO, ENOSPC, EDQUOT, EINTR}, cerr_[] = {EIO, ENOSPC, EINTR, EDQUOT}, merr[] = {EIO, EACCES, ENOENT, ESTALE};
    switch (f.cls) {
    case C_ALLOC: f.kind = F_NULL; f.sticky = r.chance(1, 8); break;
    case C_OPEN: f.kind = F_ERR; f.p = oerr[r.below(7)]; f.sticky = r.chance(1, 6); break;
    case C_IREAD: case C_READ: switch (benign ? 1 : r.below(data_faults ? 6 : 4)) { case 0: f.kind = F_ERR; f.p = rerr[r.below(4)]; f.sticky = r.chance(1, 4); break; case 1: f.kind = F_SHORT; f.p = (int64_t)r.below(1u << 20); f.sticky = r.chance(1, 4); break; case 2: if (data_faults) f.kind = F_EOF; else { f.kind = F_ERR; f.p = EIO; } f.sticky = r.chance(1, 4); break; case 3: f.kind = F_ERR; f.p = EIO; f.sticky = true; break; default: f.kind = F_FLIP; f.p = (int64_t)r.below(1u << 24); break; } break;
    case C_WRITE: switch (benign ? 1 : r.below(6)) { case 0: f.kind = F_ERR; f.p = werr[r.below(4)]; f.sticky = r.chance(1, 3); break; case 1: f.kind = F_SHORT; f.p = (int64_t)r.below(1u << 20); f.sticky = r.chance(1, 4); break; case 2: f.kind = F_DIRTYERR; f.p = (int64_t)r.below(1u << 20); break; default: f.kind = F_FULL; f.p = (int64_t)r.below(r.chance(1, 2) ? 200 : 20000); break; } break;
    case C_CLOSE: if (r.chance(2, 3)) { f.kind = F_LOST; f.p = (int64_t)r.below(r.chance(1, 2) ? 64 : 1u << 20); if (r.chance(1, 2)) { f.nth = 0; f.sticky = true; } } else { f.kind = F_ERR; f.p = cerr_[r.below(4)]; } break;
    case C_TMPIO: if (benign || r.chance(1, 2)) { f.kind = F_SHORT; f.p = (int64_t)r.below(1u << 20); } else { f.kind = F_ERR; f.p = r.chance(1, 2) ? EIO : ENOSPC; } f.sticky = r.chance(1, 4); break;
    case C_IFILE: f.kind = F_ERR; f.p = oerr[r.below(7)]; f.sticky = r.chance(1, 6); break;
    case C_META: f.kind = F_ERR; f.p = merr[r.below(4)]; break;
    case C_UNLINK: f.kind = F_ERR; f.p = r.chance(1, 2) ? EIO : EACCES; break;
    case C_LIB: f.kind = F_MEM; f.sticky = r.chance(1, 4); break;
    case C_PROC: if (r.chance(2, 3)) { f.kind = F_CHILD; f.p = (int64_t)(r.below(4) + 8 * r.below(100000)); f.sticky = r.chance(1, 3); } else { f.kind = F_ERR; f.p = r.chance(2, 3) ? EINTR : ECHILD; } break;
    case C_HASH: f.kind = F_MEM; f.sticky = r.chance(1, 6); break;
    case C_DB: f.kind = F_NODB; f.sticky = r.chance(1, 2); break;
    case C_ANY: default: {
        bool crash_ok = (check == "C10" || check == "C12" || check == "C04") && p.ops[(size_t)op].kind != "par";
        if (crash_ok && r.chance(2, 3)) { f.kind = F_CRASH; f.p = (int64_t)r.below(1u << 16); }
        else if (data_faults && r.chance(2, 3)) {
            f.kind = F_MUT; std::vector<std::string> t; const Op &o = p.ops[(size_t)op];
            if (o.a.count("delta")) t.push_back("/w/" + o.g("delta") + ".drpm");
            std::string old = o.g("old"); if (o.kind == "apply" && old != "-" && !old.empty()) t.push_back("/w/" + old + ".rpm");
            bool fs = old == "-" || o.kind == "check";
            if (fs && !p.rpms.empty()) for (int k = 0; k < 3; k++) { auto &fl = p.rpms[0].files; if (!fl.empty()) { auto &ff = fl[r.below(fl.size())]; if (ff.path.find_first_of(" %") == std::string::npos && (ff.mode & 0170000) == 0100000) t.push_back(ff.path); } }
            if (t.empty()) { f.kind = F_FULL; f.p = (int64_t)r.below(5000); break; }
            std::string w = r.pick(t); G g(check, r.next(), false); f.s = g.mutation(w, 1 + r.below(20000));
        } else { f.kind = F_FULL; f.p = (int64_t)r.below(r.chance(1, 2) ? 64 : 20000); }
    } }
    if (f.kind == F_ERR && f.p == EINTR) f.sticky = false;   // an interrupted call succeeds when it is repeated
    return f;
}
static bool is_faultable(const std::string &k) { return k == "make" || k == "apply" || k == "check" || k == "chkseq" || k == "read" || k == "par"; }
void add_faults(Plan &p, Rng &r, const Result &probe) {
    std::vector<int> cand, last; 
    for (size_t i = 0; i < p.ops.size() && i < probe.ops.size(); i++) {
        const Op &o = p.ops[i]; if (!is_faultable(o.kind) || !probe.ops[i].cnt[C_ANY]) { if (o.kind == "par") i += (size_t)o.n("n"); continue; }
        if (p.check == "C02" && o.kind != "apply") continue;
        if (p.check == "C06" && o.kind != "apply") continue;
        if (p.check == "C03" && o.kind != "make") continue;
        if (p.check == "C07" && o.kind == "make") continue;
        if (p.check == "C08" && o.kind == "make") continue;
        if (p.check == "C09" && o.kind == "make") continue;
        if (p.check == "C14" && o.kind == "make" && cand.empty() && last.empty() && r.chance(9, 10)) { last.push_back((int)i); continue; }
        cand.push_back((int)i); if (o.kind == "par") i += (size_t)o.n("n");
    }
    if (p.check == "C12") {   // every attempt but the last one of each group may be disturbed
        std::vector<int> c2; for (int i : cand) if ((size_t)i + 1 < p.ops.size() && plan_text(Plan{p.check, 0, 0, 0, {}, {p.ops[(size_t)i]}, {}}) == plan_text(Plan{p.check, 0, 0, 0, {}, {p.ops[(size_t)i + 1]}, {}})) c2.push_back(i);
        cand = c2;
        for (int i : cand) { Fault f = one_fault(r, probe.ops[(size_t)i], i, p.check, p); if (f.kind == F_MUT) continue; if (f.kind != F_NULL || f.nth != ~0ull) p.faults.push_back(f); }
        return;
    }
    if (cand.empty()) return;
    int n = r.chance(2, 3) ? 1 : r.chance(2, 3) ? 2 : 3;
    for (int i = 0; i < n; i++) {
        int op = p.check == "C02" || p.check == "C03" ? (r.chance(4, 5) ? cand.back() : r.pick(cand)) : r.pick(cand);
        p.faults.push_back(one_fault(r, probe.ops[(size_t)op], op, p.check, p));
    }
}

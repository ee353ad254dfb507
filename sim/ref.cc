#include "ref.h"
#include <rpm/rpmlib.h>
#include <rpm/header.h>
#include <rpm/rpmtd.h>

static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static uint64_t be64(const uint8_t *p) { return (uint64_t)be32(p) << 32 | be32(p + 4); }

static std::vector<std::string> strs(Header h, rpmTagVal t) {
    std::vector<std::string> v; struct rpmtd_s td;
    if (headerGet(h, t, &td, HEADERGET_MINMEM) == 1) { const char *s; while ((s = rpmtdNextString(&td))) v.push_back(s); rpmtdFreeData(&td); }
    return v;
}
static std::vector<uint64_t> nums(Header h, rpmTagVal t) {
    std::vector<uint64_t> v; struct rpmtd_s td;
    if (headerGet(h, t, &td, HEADERGET_MINMEM) == 1) { while (rpmtdNext(&td) >= 0) v.push_back(rpmtdGetNumber(&td)); rpmtdFreeData(&td); }
    return v;
}
static void facts(Header h, RefRpm &r) {
    auto gs = [&](rpmTagVal t) { const char *s = headerGetString(h, t); return std::string(s ? s : ""); };
    auto ep = nums(h, RPMTAG_EPOCH);
    r.nevr = gs(RPMTAG_NAME) + "-" + (ep.empty() ? "" : std::to_string(ep[0]) + ":") + gs(RPMTAG_VERSION) + "-" + gs(RPMTAG_RELEASE);
    if (gs(RPMTAG_NAME).empty() || gs(RPMTAG_VERSION).empty() || gs(RPMTAG_RELEASE).empty() || (!ep.empty() && ep[0] > 0x7fffffff)) r.nevr = "";   // only in damaged headers: librpm decides
    r.comp = gs(RPMTAG_PAYLOADCOMPRESSOR);
    r.has_flags = headerIsEntry(h, RPMTAG_PAYLOADFLAGS); r.flags = gs(RPMTAG_PAYLOADFLAGS); r.level = atoi(r.flags.c_str());
    r.src = !headerIsEntry(h, RPMTAG_SOURCERPM);
    auto al = nums(h, RPMTAG_FILEDIGESTALGO); r.digest = al.empty() ? 1 : (int)al[0];
    auto bn = strs(h, RPMTAG_BASENAMES), dn = strs(h, RPMTAG_DIRNAMES), dg = strs(h, RPMTAG_FILEDIGESTS), lk = strs(h, RPMTAG_FILELINKTOS);
    auto di = nums(h, RPMTAG_DIRINDEXES), sz = nums(h, RPMTAG_FILESIZES), md = nums(h, RPMTAG_FILEMODES), rd = nums(h, RPMTAG_FILERDEVS), fl = nums(h, RPMTAG_FILEFLAGS), vf = nums(h, RPMTAG_FILEVERIFYFLAGS), co = nums(h, RPMTAG_FILECOLORS);
    r.colors = !co.empty();
    for (size_t i = 0; i < bn.size(); i++) {
        RFile f; f.name = (i < di.size() && di[i] < dn.size() ? dn[di[i]] : "") + bn[i];
        if (i < dg.size()) { f.digest = dg[i]; for (auto &x : f.digest) x = (char)tolower(x); }
        if (i < lk.size()) f.link = lk[i];
        if (i < sz.size()) f.size = (uint32_t)sz[i];
        if (i < md.size()) f.mode = (unsigned)md[i];
        if (i < rd.size()) f.rdev = (uint16_t)rd[i];
        if (i < fl.size()) f.flags = (uint32_t)fl[i];
        if (i < vf.size()) f.verify = (uint32_t)vf[i];
        if (i < co.size()) f.color = (uint32_t)co[i];
        r.files.push_back(f);
    }
}
RefRpm ref_header(const Bytes &blob) {
    RefRpm r; Bytes b = blob;
    Header h = headerImport(b.data(), (unsigned)b.size(), HEADERIMPORT_COPY);
    if (!h) { r.why = "header"; return r; }
    facts(h, r); headerFree(h); r.ok = true; return r;
}
// length of an on-disk header structure at p (with magic), 0 if malformed
static size_t hdr_len(const Bytes &b, size_t o) {
    if (o + 16 > b.size() || memcmp(b.data() + o, "\x8e\xad\xe8\x01", 4)) return 0;
    uint64_t n = be32(&b[o + 8]), s = be32(&b[o + 12]);
    uint64_t l = 16 + n * 16 + s;
    return o + l > b.size() ? 0 : (size_t)l;
}
RefRpm ref_rpm(const Bytes &b, bool want) {
    RefRpm r;
    if (b.size() < 112 || memcmp(b.data(), "\xed\xab\xee\xdb", 4)) { r.why = "lead"; return r; }
    size_t sl = hdr_len(b, 96); if (!sl) { r.why = "sig"; return r; }
    size_t o = 96 + ((sl + 7) & ~(size_t)7); size_t hl = o <= b.size() ? hdr_len(b, o) : 0; if (!hl) { r.why = "header"; return r; }
    r.leadsig.assign(b.begin(), b.begin() + (long)o); r.header.assign(b.begin() + (long)o, b.begin() + (long)(o + hl)); r.payload_off = o + hl;
    Bytes sb(b.begin() + 96 + 8, b.begin() + 96 + (long)sl);
    Header s = headerImport(sb.data(), (unsigned)sb.size(), HEADERIMPORT_COPY);
    if (!s) { r.why = "sig import"; return r; }
    struct rpmtd_s td; if (headerGet(s, RPMSIGTAG_MD5, &td, HEADERGET_MINMEM) == 1) { if (td.type == RPM_BIN_TYPE && td.count == 16) { r.sigmd5 = true; memcpy(r.md5, td.data, 16); } rpmtdFreeData(&td); }
    if (headerGet(s, RPMSIGTAG_SIZE, &td, HEADERGET_MINMEM) == 1) { if (td.type == RPM_INT32_TYPE && td.count == 1) r.sigsize = *(uint32_t *)td.data; rpmtdFreeData(&td); }
    headerFree(s);
    Bytes hb(r.header.begin() + 8, r.header.end());
    Header h = headerImport(hb.data(), (unsigned)hb.size(), HEADERIMPORT_COPY);
    if (!h) { r.why = "header import"; return r; }
    facts(h, r); headerFree(h);
    uint32_t n = be32(&r.header[8]); bool f = false;
    for (uint32_t i = 0; i < n; i++) if (be32(&r.header[16 + 16 * i]) == RPMTAG_PAYLOADFORMAT && !f) { r.payload_fmt_off = be32(&r.header[16 + 16 * i + 8]); f = true; }
    if (want) { r.payload.assign(b.begin() + (long)r.payload_off, b.end()); size_t u; r.cpio_ok = decompress_any(r.payload, r.cpio, &u, nullptr) == 0; }
    r.ok = true; return r;
}

struct Cur {
    const Bytes &b; size_t o; bool bad = false; std::vector<size_t> *fields = nullptr;
    Cur(const Bytes &x, size_t at) : b(x), o(at) {}
    void mark() { if (fields) fields->push_back(o); }
    bool need(uint64_t n) { if (bad || n > b.size() - o) { bad = true; return false; } return true; }
    uint32_t u32() { mark(); if (!need(4)) return 0; uint32_t v = be32(&b[o]); o += 4; return v; }
    uint64_t u64() { mark(); if (!need(8)) return 0; uint64_t v = be64(&b[o]); o += 8; return v; }
    Bytes get(uint64_t n) { mark(); if (!need(n)) return {}; Bytes r(b.begin() + (long)o, b.begin() + (long)(o + n)); o += n; return r; }
};
static int64_t smag(uint32_t v) { return v & 0x80000000u ? -(int64_t)(v & 0x7fffffffu) : (int64_t)v; }
RefDelta ref_delta(const Bytes &b) {
    RefDelta d; auto bad = [&](const char *w) { d.why = w; return d; };
    size_t body;
    if (b.size() > 8 && !memcmp(b.data(), "drpm", 4)) {
        d.type = 1; Cur c{b, 4};
        Bytes v = c.get(4); if (c.bad || memcmp(v.data(), "DLT3", 4)) return bad("outer version");
        Bytes n = c.get(c.u32()); d.add = c.get(c.u32());
        if (c.bad) return bad("outer truncated");
        if (n.empty() || n.back() != 0) return bad("target NEVR not terminated");
        d.tgt_nevr = std::string((char *)n.data()); body = c.o;
    } else {
        RefRpm r = ref_rpm(b, false); if (!r.ok) return bad("outer rpm");
        d.header = r.header; body = r.payload_off; d.tgt_nevr = r.nevr; d.hdr_comp = r.comp; d.hdr_level = r.level; d.outsig = r.leadsig;
        Bytes rest(b.begin() + (long)r.leadsig.size(), b.end()); uint8_t m[16]; md5(rest.data(), rest.size(), m);
        d.sig_ok = r.sigmd5 && !memcmp(m, r.md5, 16) && r.sigsize == (int64_t)rest.size();
    }
    Bytes in(b.begin() + (long)body, b.end()), out; size_t used;
    d.body_len = in.size(); d.body_off = body;
    bool whole = decompress_any(in, out, &used, &d.comp) == 0;       // a cut body: its fields are still read as far as they go
    bool trailing = whole && used != in.size();
    if (whole) d.body = out;
    Cur c{out, 0}; c.fields = &d.fields; auto cnt = [&] { d.counts.push_back(c.o); return c.u32(); }; auto cnt64 = [&] { d.counts.push_back(c.o); return c.u64(); };
    Bytes m = c.get(4); if (c.bad || memcmp(m.data(), "DLT", 3) || m[3] < '1' || m[3] > '3') return bad("inner version");
    d.ver = m[3] - '0'; if (d.ver < 3 && d.type == 1) return bad("version of a whole-package delta");
    Bytes n = c.get(cnt()); if (c.bad || n.empty() || n.back() != 0) return bad("source NEVR");
    d.src_nevr = (char *)n.data();
    d.seq = c.get(cnt());
    if (c.bad || d.seq.size() < 16) return bad("sequence");
    Bytes t = c.get(16); if (c.bad) return bad("md5"); memcpy(d.tgt_md5, t.data(), 16);
    if (d.ver >= 2) { d.tgt_size = c.u32(); d.tgt_comp = c.u32(); d.comp_param = c.get(cnt()); }
    if (d.ver >= 3) {
        d.tgt_header_len = c.u32(); uint32_t k = cnt(); if (c.bad || (uint64_t)k * 8 > out.size()) return bad("offset adjustments");
        for (uint32_t i = 0; i < k; i++) d.offadj.push_back({c.u32(), 0});
        for (uint32_t i = 0; i < k; i++) d.offadj[i].second = smag(c.u32());
    }
    d.leadsig = c.get(cnt()); d.payload_fmt_off = c.u32();
    uint32_t ni = cnt(), ne = cnt(); if (c.bad || ((uint64_t)ni + ne) * 8 > out.size()) return bad("copies");
    for (uint32_t i = 0; i < ni; i++) d.ints.push_back({c.u32(), 0});
    for (uint32_t i = 0; i < ni; i++) d.ints[i].second = c.u32();
    for (uint32_t i = 0; i < ne; i++) d.exts.push_back({smag(c.u32()), 0});
    for (uint32_t i = 0; i < ne; i++) d.exts[i].second = c.u32();
    d.ext_len = d.ver >= 3 ? cnt64() : cnt();
    Bytes a = c.get(cnt()); if (d.type == 0) d.add = a; else if (!a.empty()) return bad("add data in both places");
    d.idata = c.get(d.ver >= 3 ? cnt64() : cnt());
    if (c.bad) return bad("body truncated");
    if (c.o != out.size()) return bad("extra bytes in the body");
    if (!whole) return bad("body does not decompress");
    if (trailing) return bad("trailing data after the body");
    d.ok = true; return d;
}

// ---- altered archive of a standard delta
static void seq_num(std::vector<unsigned> &nib, uint64_t v) { do { unsigned n = v & 7; v >>= 3; nib.push_back(n | (v ? 8u : 0u)); } while (v); }
Bytes unhex(const std::string &s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), nullptr, 16)); return b; }
static std::string noslash(const std::string &n) { return !n.empty() && n[0] == '/' ? n.substr(1) : n; }
static uint32_t data_size(const RFile &f) { unsigned t = f.mode & 0170000; return t == 0100000 ? f.size : t == 0120000 ? (uint32_t)f.link.size() : 0; }
static void p32(Bytes &b, uint32_t v) { for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
Bytes ref_seq(const std::vector<RFile> &files, const std::vector<size_t> &order, int digest, bool &ok) {
    Bytes m; ok = true;
    for (auto i : order) {
        const RFile &f = files[i]; std::string n = noslash(f.name); unsigned t = f.mode & 0170000;
        m.insert(m.end(), n.begin(), n.end()); m.push_back(0);
        p32(m, f.mode); p32(m, data_size(f)); p32(m, t == 0060000 || t == 0020000 ? f.rdev : 0);
        if (t == 0120000) { m.insert(m.end(), f.link.begin(), f.link.end()); m.push_back(0); }
        else if (t == 0100000 && f.size) { size_t want = digest == 8 ? 64 : 32; if (f.digest.size() != want || f.digest.find_first_not_of("0123456789abcdef") != std::string::npos) { ok = false; return {}; } Bytes h = unhex(f.digest); m.insert(m.end(), h.begin(), h.end()); }
    }
    Bytes s(16); md5(m.data(), m.size(), s.data());
    std::vector<unsigned> nib; size_t i = 0; int64_t prev_end = -1; bool first = true;    // prev_end: index after the last run
    while (i < order.size()) {
        size_t j = i; while (j + 1 < order.size() && order[j + 1] == order[j] + 1) j++;
        if (first) { if (order[i] != 0) { seq_num(nib, 0); seq_num(nib, order[i]); } }
        else if ((int64_t)order[i] > prev_end) seq_num(nib, order[i] - (uint64_t)prev_end);
        else { seq_num(nib, 0); seq_num(nib, order[i]); }
        seq_num(nib, j - i + 1); prev_end = (int64_t)order[j] + 1; first = false; i = j + 1;
    }
    for (size_t k = 0; k < nib.size(); k += 2) s.push_back((uint8_t)(nib[k] << 4 | (k + 1 < nib.size() ? nib[k + 1] : 0)));
    return s;
}
bool ref_seq_expand(const Bytes &seq, size_t nfiles, std::vector<size_t> &order) {
    order.clear(); std::vector<unsigned> nib; for (size_t i = 16; i < seq.size(); i++) { nib.push_back(seq[i] >> 4); nib.push_back(seq[i] & 15); }
    std::vector<uint64_t> nums; uint64_t v = 0; unsigned sh = 0;
    for (auto n : nib) { if (sh >= 60) return false; v |= (uint64_t)(n & 7) << sh; if (n & 8) sh += 3; else { nums.push_back(v); v = 0; sh = 0; } }
    if (sh) return false;
    uint64_t pos = 0; bool jump = false, run = true;
    for (auto n : nums) {
        if (jump) { pos = n; jump = false; run = true; continue; }
        if (n == 0) { jump = true; continue; }
        if (!run) { pos += n; run = true; continue; }
        for (uint64_t k = 0; k < n; k++) { if (pos >= nfiles || order.size() >= nfiles) return false; order.push_back((size_t)pos++); }
        run = false;
    }
    return true;
}
static void cpio_hdr(Bytes &o, uint32_t mode, uint32_t nlink, uint32_t size, uint32_t maj, uint32_t min, const std::string &name) {
    char h[128]; snprintf(h, sizeof h, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 0u, mode, 0u, 0u, nlink, 0u, size, 0u, 0u, maj, min, (unsigned)name.size() + 1, 0u);
    size_t s = o.size(); o.insert(o.end(), h, h + 110); o.insert(o.end(), name.begin(), name.end()); o.push_back(0); while ((o.size() - s) % 4) o.push_back(0);
}
static uint32_t hexn(const uint8_t *p) { return (uint32_t)strtoul(std::string((const char *)p, 8).c_str(), nullptr, 16); }
Altered ref_alter(const RefRpm &old, const std::set<size_t> &excl) {
    Altered a; const Bytes &c = old.cpio; size_t o = 0; size_t last_alt = 0;
    if (!old.cpio_ok) return a;
    std::map<std::string, size_t> idx; for (size_t i = old.files.size(); i-- > 0;) idx[noslash(old.files[i].name)] = i;
    int64_t in_pos = 0;     // position in the original archive as seen through the adjustments so far
    while (true) {
        if (o + 110 > c.size()) return a;
        uint32_t fs = hexn(&c[o + 54]), ns = hexn(&c[o + 94]); if (ns == 0 || o + 110 + ns > c.size()) return a;
        std::string name((const char *)&c[o + 110]); size_t hl = (110 + ns + 3) & ~(size_t)3; size_t dl = (fs + 3u) & ~(size_t)3;
        if (name == "TRAILER!!!") break;
        if (o + hl + dl > c.size()) return a;
        if (name.compare(0, 2, "./") == 0) name = name.substr(2);
        auto it = idx.find(name); bool skip = it == idx.end() || excl.count(it->second);
        if (!skip) {
            const RFile &f = old.files[it->second]; unsigned t = f.mode & 0170000;
            if (t == 0100000) {
                bool ml = name.find("lib/") != std::string::npos || name.find("lib32/") != std::string::npos || name.find("lib64/") != std::string::npos;
                skip = fs != f.size || (f.flags & (1u | 8u | 64u)) || !(f.verify & 1) || !(f.verify & 2) || (old.colors && (f.color & 3) && !ml);
            }
            if (!skip) {
                if ((int64_t)a.cpio.size() != in_pos) { a.offadj.push_back({(uint32_t)(a.cpio.size() - last_alt), in_pos - (int64_t)a.cpio.size()}); last_alt = a.cpio.size(); in_pos = (int64_t)a.cpio.size(); }
                uint32_t ds = data_size(f); bool dev = t == 0060000 || t == 0020000;
                cpio_hdr(a.cpio, f.mode, 1, ds, dev ? (f.rdev >> 8) & 0xff : 0, dev ? f.rdev & 0xff : 0, "./" + name);
                if (t == 0120000) { a.cpio.insert(a.cpio.end(), f.link.begin(), f.link.end()); while (a.cpio.size() % 4) a.cpio.push_back(0); }
                else if (fs) { a.cpio.insert(a.cpio.end(), c.begin() + (long)(o + hl), c.begin() + (long)(o + hl + fs)); while (a.cpio.size() % 4) a.cpio.push_back(0); }
                a.order.push_back(it->second);
            }
        }
        in_pos += (int64_t)(hl + dl); o += hl + dl;
    }
    cpio_hdr(a.cpio, 0, 1, 0, 0, 0, "TRAILER!!!");
    bool ok; a.seq = ref_seq(old.files, a.order, old.digest, ok); a.ok = ok; return a;
}
bool ref_old_data(const RefDelta &d, const RefRpm &old, Bytes &out, const Altered *al) {
    if (d.type == 1) { out = old.header; out.insert(out.end(), old.cpio.begin(), old.cpio.end()); return old.cpio_ok; }
    if (al) { out = al->cpio; return al->ok; }
    Altered a = ref_alter(old); out = a.cpio; return a.ok;
}
bool ref_diff_apply(const RefDelta &d, const Bytes &old, Bytes &out, std::string &why) {
    Bytes add; if (!d.add.empty()) { size_t u; if (decompress_any(d.add, add, &u, nullptr) || u != d.add.size()) { why = "add block does not decompress"; return false; } }
    out.clear(); int64_t eo = 0; size_t ip = 0, ep = 0, ap = 0;
    for (auto &ic : d.ints) {
        for (uint32_t k = 0; k < ic.first; k++) {
            if (ep >= d.exts.size()) { why = "too few external copies"; return false; }
            eo += d.exts[ep].first; uint32_t l = d.exts[ep].second; ep++;
            if (eo < 0 || (uint64_t)eo + l > old.size()) { why = "external copy out of range"; return false; }
            if (!d.add.empty() && ap + l > add.size()) { why = "add block too short"; return false; }
            for (uint32_t i = 0; i < l; i++) out.push_back((uint8_t)(old[(size_t)eo + i] + (d.add.empty() ? 0 : add[ap + i])));
            ap += l; eo += l;
        }
        if (ip + ic.second > d.idata.size()) { why = "internal data too short"; return false; }
        out.insert(out.end(), d.idata.begin() + (long)ip, d.idata.begin() + (long)(ip + ic.second)); ip += ic.second;
    }
    if (ep != d.exts.size()) { why = "unused external copies"; return false; }
    if (ip != d.idata.size()) { why = "unused internal data"; return false; }
    if (!d.add.empty() && ap != add.size()) { why = "unused add data"; return false; }
    return true;
}
// ---- deltas nobody's differ would write, but which the format allows
static void p64(Bytes &b, uint64_t v) { p32(b, (uint32_t)(v >> 32)); p32(b, (uint32_t)v); }
static void blob(Bytes &b, const Bytes &x) { p32(b, (uint32_t)x.size()); b.insert(b.end(), x.begin(), x.end()); }
Bytes ref_encode(const RefDelta &d, const std::string &comp, int level) {
    Bytes b; auto sm = [&](int64_t v) { p32(b, v < 0 ? 0x80000000u | (uint32_t)-v : (uint32_t)v); };
    Bytes s(d.src_nevr.begin(), d.src_nevr.end()); s.push_back(0);
    b = {'D', 'L', 'T', (uint8_t)('0' + d.ver)}; blob(b, s); blob(b, d.seq); b.insert(b.end(), d.tgt_md5, d.tgt_md5 + 16);
    if (d.ver >= 2) { p32(b, d.tgt_size); p32(b, d.tgt_comp); blob(b, d.comp_param); }
    if (d.ver >= 3) { p32(b, d.tgt_header_len); p32(b, (uint32_t)d.offadj.size()); for (auto &x : d.offadj) p32(b, x.first); for (auto &x : d.offadj) sm(x.second); }
    blob(b, d.leadsig); p32(b, d.payload_fmt_off); p32(b, (uint32_t)d.ints.size()); p32(b, (uint32_t)d.exts.size());
    for (auto &x : d.ints) p32(b, x.first); for (auto &x : d.ints) p32(b, x.second);
    for (auto &x : d.exts) sm(x.first); for (auto &x : d.exts) p32(b, x.second);
    if (d.ver >= 3) p64(b, d.ext_len); else p32(b, (uint32_t)d.ext_len);
    blob(b, d.type ? Bytes() : d.add); if (d.ver >= 3) { p64(b, d.idata.size()); b.insert(b.end(), d.idata.begin(), d.idata.end()); } else blob(b, d.idata);
    Bytes z = compress_as(b, comp, level), o;
    if (d.type) { Bytes n(d.tgt_nevr.begin(), d.tgt_nevr.end()); n.push_back(0); o = {'d', 'r', 'p', 'm', 'D', 'L', 'T', '3'}; blob(o, n); blob(o, d.add); o.insert(o.end(), z.begin(), z.end()); return o; }
    Bytes rest = d.header; rest.insert(rest.end(), z.begin(), z.end()); uint8_t m[16]; md5(rest.data(), rest.size(), m);
    o = d.outsig; uint32_t n = be32(&o[104]); size_t data = 112 + (size_t)n * 16;
    for (uint32_t i = 0; i < n; i++) {
        size_t e = 112 + i * 16u, at = data + be32(&o[e + 8]); uint32_t tag = be32(&o[e]);
        if (tag == 1004) std::copy(m, m + 16, o.begin() + (long)at);
        if (tag == 1000) { Bytes t; p32(t, (uint32_t)rest.size()); std::copy(t.begin(), t.end(), o.begin() + (long)at); }
    }
    o.insert(o.end(), rest.begin(), rest.end()); return o;
}
bool ref_rediff(RefDelta &d, const Bytes &old, const Bytes &t, Rng &r) {
    Bytes add; bool use_add = r.chance(1, 2); uint64_t E = std::min<uint64_t>(d.ext_len, old.size()); size_t o = 0; int64_t pos = 0; uint32_t k = 0; size_t copies = 0, max = 4 + r.below(1u << r.range(1, 9));
    size_t span = std::max<size_t>(1, t.size() / max); uint64_t focus = E ? r.below(E) : 0; d.ints.clear(); d.exts.clear(); d.idata.clear();
    std::unordered_map<uint64_t, uint32_t> at; if (!use_add) for (uint64_t i = 0; i + 16 <= E; i += 4) at.emplace(fnv(&old[i], 16), (uint32_t)i);
    uint32_t lit = 0; auto flush = [&] { d.ints.push_back({k, lit}); k = 0; lit = 0; };
    while (o < t.size()) {
        size_t len = std::min(t.size() - o, 1 + r.below(2 * span)); if (r.chance(1, 12)) len = std::min(t.size() - o, (size_t)(8192 - 2 + r.below(5)));
        uint64_t from = 0; bool ext = E && copies < max && r.chance(3, 4);
        if (ext) {
            if (use_add) { if (r.chance(1, 5)) focus = r.below(E); from = r.chance(1, 3) ? r.below(E) : std::min(E - 1, focus + r.below(20000)); if (r.chance(1, 4)) { from &= ~(uint64_t)8191; } }
            else { auto i = o + 16 <= t.size() ? at.find(fnv(&t[o], 16)) : at.end(); if (i == at.end()) ext = false; else { from = i->second; size_t n = 0; while (n < len && from + n < E && old[from + n] == t[o + n]) n++; if (n < 4) ext = false; else len = n; } }
            if (ext) len = (size_t)std::min<uint64_t>(len, E - from); if (ext && r.chance(1, 10)) len = (size_t)std::min<uint64_t>(std::min<uint64_t>(t.size() - o, E - from), use_add ? len : 1);
        }
        if (!use_add && !ext && !r.chance(1, 30)) len = std::min<size_t>(t.size() - o, 4);
        if (ext) {
            if (lit || (k && r.chance(1, 9))) flush();
            d.exts.push_back({(int64_t)from - pos, (uint32_t)len}); k++; copies++; pos = (int64_t)(from + len);
            if (use_add) for (size_t i = 0; i < len; i++) add.push_back((uint8_t)(t[o + i] - old[from + i]));
        } else { d.idata.insert(d.idata.end(), t.begin() + (long)o, t.begin() + (long)(o + len)); lit += (uint32_t)len; if (r.chance(1, 9)) flush(); }
        o += len;
    }
    if (lit || k || d.ints.empty()) flush();
    static const char *C[] = {"none", "gzip", "bzip2", "lzma", "xz", "zstd", "lzip"};
    bool none = std::all_of(add.begin(), add.end(), [](uint8_t x) { return x == 0; }); if (none) add.clear();
    if (!add.empty()) { std::string c = C[r.below(7)]; d.add = compress_as(add, c, c == "xz" || c == "lzma" || c == "zstd" ? 1 : (int)r.below(10)); } else d.add.clear();
    return true;
}
// ---- patch lists
static void p16(Bytes &b, unsigned v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
static void str8(Bytes &b, const std::string &s) { b.push_back((uint8_t)s.size()); b.insert(b.end(), s.begin(), s.end()); }
static void fname(Bytes &b, std::string &prev, const std::string &n, Rng &r) {     // names share a prefix with the name before
    size_t k = 0; if (!r.chance(1, 4)) while (k < 255 && k < n.size() && k < prev.size() && n[k] == prev[k]) k++;
    if (k && r.chance(1, 4)) k = r.below(k + 1);
    if (n.size() && k == n.size() && r.chance(1, 2)) k--;
    size_t l = n.size() - k; b.push_back((uint8_t)k);
    if (l >= 255 || r.chance(1, 6)) { b.push_back(0xff); p16(b, (unsigned)l); } else b.push_back((uint8_t)l);
    b.insert(b.end(), n.begin() + (long)k, n.end()); prev = n;
}
Bytes ref_rpml(const RList &l, uint64_t style) {
    Rng r(style); Bytes b; std::string prev; auto junk = [&](size_t n) { while (n--) b.push_back((uint8_t)r.next()); };
    p32(b, 0x52504d4c); size_t d = l.nevr.rfind('-'); d = d == std::string::npos || d == 0 ? d : l.nevr.rfind('-', d - 1); if (d == std::string::npos) d = 0;
    str8(b, l.nevr.substr(0, d)); str8(b, l.nevr.substr(d ? d + 1 : 0)); str8(b, std::string(r.below(r.chance(1, 4) ? 256 : 12), 'h')); junk(4);
    size_t un = 0; for (auto &e : l.e) un += e.unpatched;
    unsigned pc = un ? 1 + (unsigned)r.below(3) : (unsigned)r.below(2); p16(b, pc);
    if (pc) {
        for (unsigned i = 0; i < pc; i++) str8(b, "patch-" + std::string(r.below(20), 'p'));
        p32(b, (uint32_t)un); for (auto &e : l.e) if (e.unpatched) fname(b, prev, e.name, r);
    }
    for (auto &e : l.e) if (!e.unpatched) {
        fname(b, prev, (r.chance(1, 2) ? "./" : "") + e.name, r); p16(b, e.mode); if (!e.mode) continue;
        unsigned need = e.size < 0x100 ? 0 : e.size < 0x10000 ? 1 : e.size < 0x1000000 ? 2 : 3; if (r.chance(1, 3)) need = (unsigned)r.range(need, 3);
        unsigned hi = r.chance(1, 3) ? 0 : (unsigned)r.below(8), mid = r.chance(1, 3) ? 0 : (unsigned)r.below(8); unsigned num = hi << 5 | mid << 2 | need;
        if (num == 0xff || r.chance(1, 5)) {
            unsigned n2 = r.chance(1, 2) ? 0 : (unsigned)r.below(256), m = r.chance(1, 3) ? 0 : (unsigned)r.below(64);
            b.push_back(0xff); b.push_back((uint8_t)n2); b.push_back((uint8_t)(m << 2 | need)); if (n2) junk(n2 + 1); if (m) junk(m + 1);
        } else { b.push_back((uint8_t)num); if (hi) junk(hi + 1); if (mid) junk(mid + 1); }
        unsigned t = e.mode & 0170000; if (t == 0020000 || t == 0060000) junk(4);
        if (t == 0100000 || t == 0120000) { for (unsigned i = need + 1; i-- > 0;) b.push_back((uint8_t)(e.size >> (8 * i))); if (e.size) { Bytes m = unhex(e.md5); b.insert(b.end(), m.begin(), m.end()); } }
    }
    b.push_back(0); b.push_back(0); if (r.chance(1, 4)) junk(r.below(40));
    return b;
}
std::set<size_t> ref_excluded(const RefRpm &old, const RList &print, const RList &patch) {
    std::set<size_t> s; static const std::string zero(32, '0');
    for (size_t i = 0; i < old.files.size(); i++) {
        const RFile &f = old.files[i]; if ((f.mode & 0170000) != 0100000) continue;
        std::string n = noslash(f.name); const RList::E *a = nullptr, *b = nullptr;
        for (auto &e : print.e) if (e.name == n && e.unpatched) { a = &e; break; }
        if (!a) continue;
        for (auto &e : patch.e) if (e.name == n && e.unpatched) { b = &e; break; }
        if (!b) for (auto &e : patch.e) if (e.name == n) { b = &e; break; }
        unsigned t = b ? b->mode & 0170000 : 0; bool has = b && !b->unpatched && (t == 0100000 || t == 0120000) && b->size;
        if (!b || (has ? b->md5 : zero) != f.digest) s.insert(i);
    }
    return s;
}
static const char *comp_names[] = {"none", "gzip", "bzip2", "gzip", "bzip2", "lzma", "xz", "zstd"};
bool ref_apply(const RefDelta &d, const RefRpm &old, Bytes &out, std::string &why, const Altered *al) {
    Bytes od, nd; out = d.leadsig;
    if (d.type == 1 && d.ints.empty() && d.exts.empty() && (d.tgt_comp & 255) == 0) {   // identity: nothing to rebuild
        out.insert(out.end(), old.header.begin(), old.header.end()); out.insert(out.end(), old.payload.begin(), old.payload.end()); return true;
    }
    if (!ref_old_data(d, old, od, al)) { why = "old data"; return false; }
    if (od.size() != d.ext_len) { why = "length of the old data is not the recorded one"; return false; }
    if (!ref_diff_apply(d, od, nd, why)) return false;
    std::string comp; int level;
    if (d.ver >= 2) { if ((d.tgt_comp & 255) > 7) { why = "target compression"; return false; } comp = comp_names[d.tgt_comp & 255]; level = (int)(d.tgt_comp >> 8 & 255); } else { comp = d.hdr_comp; level = 0; }
    if (d.type == 0) {
        Bytes h = d.header; size_t off = 16 + 16 * (size_t)be32(&h[8]) + d.payload_fmt_off;
        if (off + 5 > h.size() || memcmp(&h[off], "drpm", 5)) { why = "payload format offset"; return false; }
        memcpy(&h[off], "cpio", 4); out.insert(out.end(), h.begin(), h.end());
        if (d.tgt_header_len) { why = "header length in a standard delta"; return false; }
    } else {
        if (d.tgt_header_len > nd.size()) { why = "header length"; return false; }
        out.insert(out.end(), nd.begin(), nd.begin() + d.tgt_header_len); nd.erase(nd.begin(), nd.begin() + d.tgt_header_len);
    }
    Bytes c = compress_as(nd, comp, level); out.insert(out.end(), c.begin(), c.end());
    return true;
}

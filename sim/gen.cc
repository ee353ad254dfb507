// Generator of synthetic RPM packages (specification -> bytes), using librpm's header API only for header encoding.
#include "gen.h"
#include <openssl/evp.h>
#include <algorithm>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <zstd.h>
#include <lzlib.h>
#include <rpm/rpmlib.h>
#include <rpm/header.h>
#include <rpm/rpmtd.h>

std::string hex(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
void md5(const void *p, size_t n, uint8_t out[16]) { unsigned l; EVP_Digest(p, n, out, &l, EVP_md5(), nullptr); }
void sha256(const void *p, size_t n, uint8_t out[32]) { unsigned l; EVP_Digest(p, n, out, &l, EVP_sha256(), nullptr); }
std::vector<std::string> split(const std::string &s, char sep) { std::vector<std::string> v; std::string c; for (char ch : s) { if (ch == sep) { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }
std::string esc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c <= ' ' || c == '%' || c >= 127 || c == '=') { snprintf(b, 8, "%%%02x", c); o += b; } else o += (char)c; } return o; }
std::string unesc(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; } return o; }

// ------------------------------------------------------------------ contents
static void put16(Bytes &b, size_t o, uint32_t v, bool le) { b[o + (le ? 0 : 1)] = (uint8_t)v; b[o + (le ? 1 : 0)] = (uint8_t)(v >> 8); }
static void put32(Bytes &b, size_t o, uint32_t v, bool le) { for (int i = 0; i < 4; i++) b[o + (size_t)(le ? i : 3 - i)] = (uint8_t)(v >> (8 * i)); }
// lay out an ELF header and section table inside b (which must be >= 512 bytes); undo: name a .gnu.prelink_undo section
static void elf_head(Bytes &b, bool is64, bool le, bool undo, bool weird) {
    static const char *names0 = "\0.text\0.data\0.shstrtab\0.bss\0";
    static const char *names1 = "\0.text\0.gnu.prelink_undo\0.shstrtab\0";
    std::string nm(undo ? std::string(names1, 36) : std::string(names0, 29));
    size_t ssz = is64 ? 64 : 40, nsec = 3, shoff = 0x40, stroff = shoff + ssz * nsec;
    std::fill(b.begin(), b.begin() + (long)(stroff + nm.size() + 4), 0);
    b[0] = 0x7f; b[1] = 'E'; b[2] = 'L'; b[3] = 'F'; b[4] = is64 ? 2 : 1; b[5] = le ? 1 : 2; b[6] = 1;
    if (is64) put32(b, le ? 40 : 44, (uint32_t)shoff, le); else put32(b, 32, (uint32_t)shoff, le);
    size_t t = is64 ? 0x40 : 0x34;
    put16(b, t - 6, (uint32_t)ssz, le); put16(b, t - 4, (uint32_t)nsec, le); put16(b, t - 2, 2, le);
    for (size_t i = 0; i < nsec; i++) {
        size_t s = shoff + i * ssz;
        put32(b, s, (uint32_t)(i == 1 ? 7 : i == 2 ? (undo ? 25 : 13) : 1), le);
        put32(b, s + 4, i == 2 ? (weird ? 1 : 3) : 1, le);
        if (i == 2) { if (is64) { put32(b, s + (le ? 24 : 28), (uint32_t)stroff, le); put32(b, s + (le ? 32 : 36), (uint32_t)nm.size(), le); } else { put32(b, s + 16, (uint32_t)stroff, le); put32(b, s + 20, (uint32_t)nm.size(), le); } }
    }
    memcpy(b.data() + stroff, nm.data(), nm.size());
}
Bytes prelink_image(const Bytes &orig, uint64_t seed, bool near) {
    Rng r(seed); Bytes b(1024);
    for (auto &x : b) x = (uint8_t)r.next();
    bool is64 = orig.size() > 5 ? orig[4] == 2 : true, le = orig.size() > 5 ? orig[5] != 2 : true;
    if (r.chance(1, 4)) is64 = !is64;
    // string table: some names, the telling one last or anywhere
    std::string st(1, '\0'); uint32_t undo_at = 0; int names = (int)r.range(1, 8), at = r.chance(1, 3) ? names - 1 : (int)r.below((uint64_t)names); std::vector<uint32_t> offs{0};
    static const char *other[] = {".text", ".data", ".shstrtab", ".bss", ".gnu.prelink_undx", ".gnu.prelink", ".gnu.prelink_undo2", ".gnu.liblist", ".dynamic"};
    int how = near ? (int)r.below(3) : 0;            // 0: no such name, 1: no section carries it, 2: the section table lies beyond the file
    for (int i = 0; i < names; i++) { bool u = i == at && !(near && how == 0); if (u) undo_at = (uint32_t)st.size(); else offs.push_back((uint32_t)st.size()); st += u ? ".gnu.prelink_undo" : other[r.below(9)]; st += '\0'; }
    if (r.chance(1, 2) && undo_at + 18 != st.size()) st += std::string(1 + r.below(40), '\0');
    size_t ssz = (is64 ? 64u : 40u) + (r.chance(1, 4) ? 8 * r.below(30) : 0), nsec = 2 + r.below(r.chance(1, 2) ? 4 : 38), sidx = r.below(nsec), uidx = (sidx + 1 + r.below(nsec - 1)) % nsec;
    Bytes tab(nsec * ssz); for (auto &x : tab) x = (uint8_t)r.next();
    b[0] = 0x7f; b[1] = 'E'; b[2] = 'L'; b[3] = 'F'; b[4] = is64 ? 2 : 1; b[5] = le ? 1 : 2; b[6] = 1;
    std::fill(b.begin() + 0x200, b.begin() + 0x210, 0);
    memcpy(b.data() + 0x300, near ? "SIMNEAR " : "SIMPRELK", 8); uint32_t n = (uint32_t)orig.size(); memcpy(b.data() + 0x308, &n, 4);
    b.insert(b.end(), orig.begin(), orig.end());
    size_t extra = 16 + r.below(r.chance(1, 6) ? 90000 : 3000);
    for (size_t i = 0; i < extra; i++) b.push_back((uint8_t)r.next());
    auto place = [&](size_t len, size_t lo, size_t hi) { if (lo + len <= hi && r.chance(1, 2)) return lo; size_t o = b.size(); b.resize(o + len); return o; };
    size_t stroff, shoff;
    if (r.chance(1, 2)) { stroff = place(st.size(), 0x210, 0x300); shoff = place(tab.size(), 0x40, 0x200); } else { shoff = place(tab.size(), 0x40, 0x200); stroff = place(st.size(), 0x310, 0x400); }
    for (size_t i = 0; i < nsec; i++) {
        uint32_t nameo = i == uidx && !(near && how <= 1) ? undo_at : r.chance(1, 8) ? (uint32_t)st.size() + (uint32_t)r.below(r.chance(1, 2) ? 3 : 0x7ffffff0u) : offs[r.below(offs.size())];
        put32(tab, i * ssz, nameo, le); if (i != sidx) continue;
        put32(tab, i * ssz + 4, 3, le); size_t w = i * ssz;
        if (is64) { for (int k = 24; k < 40; k++) tab[w + (size_t)k] = 0; put32(tab, w + (le ? 24 : 28), (uint32_t)stroff, le); put32(tab, w + (le ? 32 : 36), (uint32_t)st.size(), le); }
        else { put32(tab, w + 16, (uint32_t)stroff, le); put32(tab, w + 20, (uint32_t)st.size(), le); }
    }
    memcpy(b.data() + shoff, tab.data(), tab.size()); memcpy(b.data() + stroff, st.data(), st.size());
    uint32_t so = (uint32_t)shoff + (near && how == 2 && !is64 ? (uint32_t)b.size() : 0);
    if (is64) { for (int k = 40; k < 48; k++) b[(size_t)k] = 0; put32(b, le ? 40 : 44, so, le); if (near && how == 2) put32(b, le ? 44 : 40, 1u << r.below(32), le); } else put32(b, 32, so, le);
    size_t t = is64 ? 0x40 : 0x34; put16(b, t - 6, (uint32_t)ssz, le); put16(b, t - 4, (uint32_t)nsec, le); put16(b, t - 2, (uint32_t)sidx, le);
    return b;
}
static const char *words[] = {"the ", "delta ", "rpm ", "package ", "of ", "\n", "header ", "copy ", "0x", "block ", "int ", "external ", "data = ", "return ", "if (", ") {\n", "}\n", "archive "};
Bytes render(const Content &c) {
    Rng r(c.seed); Bytes b;
    char kind = c.kind;
    while (b.size() < c.size) {
        char k = kind == 'm' ? "trzp"[(r.below(4))] : kind;
        size_t run = kind == 'm' ? 1 + r.below(3000) : c.size;
        size_t stop = std::min<size_t>(c.size, b.size() + run);
        while (b.size() < stop) {
            if (k == 'r' || k == 'e' || k == 'x') { uint64_t v = r.next(); for (int i = 0; i < 8; i++) b.push_back((uint8_t)(v >> (8 * i))); }
            else if (k == 'z') b.push_back(0);
            else if (k == 'p') { uint64_t s = b.size() % 37; b.push_back((uint8_t)(s * 7 + (c.seed & 0xff))); }
            else { const char *w = words[r.below(18)]; b.insert(b.end(), w, w + strlen(w)); }
        }
        b.resize(stop);
    }
    for (auto &e : c.edits) {
        Rng q(e.first);
        for (int i = 0; i < e.second; i++) {
            size_t n = b.size(); size_t pos = q.below(n + 1); size_t len = 1 + q.below(q.chance(1, 4) ? 2000 : 80);
            switch (q.below(6)) {
            case 0: for (size_t k = pos; k < std::min(n, pos + len); k++) b[k] = (uint8_t)q.next(); break;
            case 1: { Bytes ins; for (size_t k = 0; k < len; k++) ins.push_back((uint8_t)q.next()); b.insert(b.begin() + (long)pos, ins.begin(), ins.end()); break; }
            case 2: b.erase(b.begin() + (long)pos, b.begin() + (long)std::min(n, pos + len)); break;
            case 3: for (size_t k = pos; k < std::min(n, pos + len * 4); k += 1 + q.below(6)) b[k] = (uint8_t)(b[k] + 1 + q.below(3)); break;   // small increments (add block)
            case 4: if (n > 64) { size_t a = q.below(n), l = std::min(n - a, len * 8); Bytes mv(b.begin() + (long)a, b.begin() + (long)(a + l)); b.erase(b.begin() + (long)a, b.begin() + (long)(a + l)); size_t p2 = q.below(b.size() + 1); b.insert(b.begin() + (long)p2, mv.begin(), mv.end()); } break;
            case 5: if (n > 64) { size_t a = q.below(n), l = std::min(n - a, len * 4); Bytes mv(b.begin() + (long)a, b.begin() + (long)(a + l)); b.insert(b.begin() + (long)pos, mv.begin(), mv.end()); } break;
            }
        }
    }
    if ((kind == 'e' || kind == 'x') && b.size() >= 512) { Rng q(c.seed ^ 0x55); bool is64 = q.chance(1, 2), le = q.chance(2, 3); elf_head(b, is64, le, false, kind == 'x'); }
    return b;
}

// ------------------------------------------------------------------ compression with the parameters rpm deltas can reproduce
static Bytes compress_raw(const Bytes &in, const std::string &comp, int level);
Bytes compress_as(const Bytes &in, const std::string &comp, int level) {     // memoised per process
    static std::map<std::pair<std::pair<uint64_t, uint64_t>, std::pair<std::string, int>>, Bytes> memo;
    auto k = std::make_pair(std::make_pair(fnv(in.data(), in.size()), fnv(in.data(), in.size(), 99)), std::make_pair(comp, level));
    auto i = memo.find(k); if (i == memo.end()) { if (memo.size() > 64) memo.clear(); i = memo.emplace(k, compress_raw(in, comp, level)).first; }
    return i->second;
}
static Bytes compress_raw(const Bytes &in, const std::string &comp, int level) {
    Bytes out; uint8_t buf[65536];
    if (comp == "none") return in;
    if (comp == "gzip") {
        z_stream s; memset(&s, 0, sizeof s);
        deflateInit2(&s, level ? level : 9, Z_DEFLATED, 16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY);
        s.next_in = (Bytef *)in.data(); s.avail_in = (uInt)in.size(); int r;
        do { s.next_out = buf; s.avail_out = sizeof buf; r = deflate(&s, Z_FINISH); out.insert(out.end(), buf, buf + (sizeof buf - s.avail_out)); } while (r == Z_OK);
        deflateEnd(&s);
    } else if (comp == "bzip2") {
        bz_stream s; memset(&s, 0, sizeof s);
        BZ2_bzCompressInit(&s, level ? level : 9, 0, 0);
        s.next_in = (char *)in.data(); s.avail_in = (unsigned)in.size(); int r;
        do { s.next_out = (char *)buf; s.avail_out = sizeof buf; r = BZ2_bzCompress(&s, BZ_FINISH); out.insert(out.end(), buf, buf + (sizeof buf - s.avail_out)); } while (r == BZ_FINISH_OK);
        BZ2_bzCompressEnd(&s);
    } else if (comp == "lzma" || comp == "xz") {
        lzma_stream s = LZMA_STREAM_INIT; lzma_options_lzma o;
        if (comp == "lzma") { lzma_lzma_preset(&o, (uint32_t)(level ? level : 2)); lzma_alone_encoder(&s, &o); }
        else lzma_easy_encoder(&s, (uint32_t)(level ? level : 3), LZMA_CHECK_SHA256);
        s.next_in = in.data(); s.avail_in = in.size(); lzma_ret r;
        do { s.next_out = buf; s.avail_out = sizeof buf; r = lzma_code(&s, LZMA_FINISH); out.insert(out.end(), buf, buf + (sizeof buf - s.avail_out)); } while (r == LZMA_OK);
        lzma_end(&s);
    } else if (comp == "zstd") {
        ZSTD_CCtx *c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, level ? level : 19);
        ZSTD_inBuffer i = {in.data(), in.size(), 0};
        while (i.pos < i.size) { ZSTD_outBuffer o = {buf, sizeof buf, 0}; ZSTD_compressStream2(c, &o, &i, ZSTD_e_continue); out.insert(out.end(), buf, buf + o.pos); }
        size_t rem; do { ZSTD_outBuffer o = {buf, sizeof buf, 0}; rem = ZSTD_compressStream2(c, &o, &i, ZSTD_e_end); out.insert(out.end(), buf, buf + o.pos); } while (rem && !ZSTD_isError(rem));
        ZSTD_freeCCtx(c);
    } else if (comp == "lzip") {
        LZ_Encoder *e = LZ_compress_open(65535, 16, SIZE_MAX); size_t w = 0;
        while (w < in.size()) { int k = LZ_compress_write(e, in.data() + w, (int)std::min<size_t>(in.size() - w, 60000)); if (k < 0) break; w += (size_t)k; int n; while ((n = LZ_compress_read(e, buf, sizeof buf)) > 0) out.insert(out.end(), buf, buf + n); }
        LZ_compress_finish(e);
        while (!LZ_compress_finished(e)) { int n = LZ_compress_read(e, buf, sizeof buf); if (n < 0) break; out.insert(out.end(), buf, buf + n); }
        LZ_compress_close(e);
    }
    return out;
}
int decompress_any(const Bytes &in, Bytes &out, size_t *used, std::string *comp, size_t cap) {
    Bytes buf(65536); out.clear();
    auto is = [&](const char *m, size_t n) { return in.size() >= n && !memcmp(in.data(), m, n); };
    std::string c;
    if (is("\x1f\x8b", 2)) c = "gzip"; else if (is("BZh", 3)) c = "bzip2"; else if (is("\xfd" "7zXZ\0", 6)) c = "xz";
    else if (is("LZIP", 4)) c = "lzip"; else if (is("\x28\xb5\x2f\xfd", 4)) c = "zstd"; else if (is("\x5d\0\0", 3)) c = "lzma"; else c = "none";
    if (comp) *comp = c;
    size_t u = 0; int rc = 1;
    if (c == "none") { out = in; u = in.size(); rc = 0; }
    else if (c == "gzip") {
        z_stream s; memset(&s, 0, sizeof s); inflateInit2(&s, 16 + MAX_WBITS); s.next_in = (Bytef *)in.data(); s.avail_in = (uInt)in.size(); int r;
        do { s.next_out = buf.data(); s.avail_out = (uInt)buf.size(); r = inflate(&s, Z_NO_FLUSH); out.insert(out.end(), buf.begin(), buf.begin() + (long)(buf.size() - s.avail_out)); } while (r == Z_OK && out.size() < cap);
        u = in.size() - s.avail_in; rc = r == Z_STREAM_END ? 0 : 1; inflateEnd(&s);
    } else if (c == "bzip2") {
        bz_stream s; memset(&s, 0, sizeof s); BZ2_bzDecompressInit(&s, 0, 0); s.next_in = (char *)in.data(); s.avail_in = (unsigned)in.size(); int r; unsigned pin, pout;
        do { pin = s.avail_in; s.next_out = (char *)buf.data(); s.avail_out = (unsigned)buf.size(); r = BZ2_bzDecompress(&s); pout = (unsigned)(buf.size() - s.avail_out); out.insert(out.end(), buf.begin(), buf.begin() + pout); } while (r == BZ_OK && (pin != s.avail_in || pout) && out.size() < cap);
        u = in.size() - s.avail_in; rc = r == BZ_STREAM_END ? 0 : 1; BZ2_bzDecompressEnd(&s);
    } else if (c == "xz" || c == "lzma") {
        lzma_stream s = LZMA_STREAM_INIT; lzma_auto_decoder(&s, 1u << 31, 0); s.next_in = in.data(); s.avail_in = in.size(); lzma_ret r;
        do { s.next_out = buf.data(); s.avail_out = buf.size(); r = lzma_code(&s, LZMA_FINISH); out.insert(out.end(), buf.begin(), buf.begin() + (long)(buf.size() - s.avail_out)); } while (r == LZMA_OK && out.size() < cap);
        u = in.size() - s.avail_in; rc = r == LZMA_STREAM_END ? 0 : 1; lzma_end(&s);
    } else if (c == "zstd") {
        ZSTD_DCtx *d = ZSTD_createDCtx(); ZSTD_inBuffer i = {in.data(), in.size(), 0}; size_t r = 1; size_t po;
        do { ZSTD_outBuffer o = {buf.data(), buf.size(), 0}; r = ZSTD_decompressStream(d, &o, &i); po = o.pos; out.insert(out.end(), buf.begin(), buf.begin() + (long)po); } while (r && !ZSTD_isError(r) && (i.pos < i.size || po == buf.size()) && out.size() < cap);
        u = i.pos; rc = r == 0 ? 0 : 1; ZSTD_freeDCtx(d);
    } else {
        LZ_Decoder *d = LZ_decompress_open(); size_t w = 0; bool fin = false;
        while (out.size() < cap) {
            if (w < in.size()) { int k = LZ_decompress_write(d, in.data() + w, (int)std::min<size_t>(in.size() - w, 60000)); if (k < 0) break; w += (size_t)k; }
            if (w == in.size() && !fin) { LZ_decompress_finish(d); fin = true; }
            int n = LZ_decompress_read(d, buf.data(), (int)buf.size()); if (n < 0) break;
            out.insert(out.end(), buf.begin(), buf.begin() + n);
            if (LZ_decompress_finished(d)) { rc = 0; break; }
            if (n == 0 && fin) break;
        }
        u = (size_t)LZ_decompress_total_in_size(d); LZ_decompress_close(d);
    }
    if (used) *used = u;
    return rc;
}

// ------------------------------------------------------------------ spec text
static std::string ctext(const Content &c) {
    char b[128]; snprintf(b, sizeof b, "%c:%llu:%u", c.kind, (unsigned long long)c.seed, c.size); std::string s = b;
    for (auto &e : c.edits) { snprintf(b, sizeof b, ":%llu:%d", (unsigned long long)e.first, e.second); s += b; }
    return s;
}
static Content cparse(const std::string &s) {
    Content c; auto v = split(s, ':');
    if (v.size() >= 3) { c.kind = v[0][0]; c.seed = strtoull(v[1].c_str(), nullptr, 10); c.size = (uint32_t)strtoul(v[2].c_str(), nullptr, 10); }
    for (size_t i = 3; i + 1 < v.size(); i += 2) c.edits.push_back({strtoull(v[i].c_str(), nullptr, 10), atoi(v[i + 1].c_str())});
    return c;
}
std::string spec_text(const RpmSpec &r) {
    char b[1024];
    snprintf(b, sizeof b, "rpm id=%s name=%s ver=%s rel=%s arch=%s epoch=%lld src=%d comp=%s level=%d digest=%d sigmd5=%d colors=%d order=%llu cseed=%llu pad=%d flagless=%d dot=%d rsvd=%d%s%s\n",
             r.id.c_str(), esc(r.name).c_str(), esc(r.ver).c_str(), esc(r.rel).c_str(), r.arch.c_str(), (long long)r.epoch, r.src, r.comp.c_str(), r.level, r.digest, r.sigmd5, r.colors,
             (unsigned long long)r.order, (unsigned long long)r.cseed, r.pad, r.flagless, r.dotslash, r.rsvd, r.fmt == "cpio" ? "" : " fmt=", r.fmt == "cpio" ? "" : r.fmt.c_str());
    std::string s = b;
    for (auto &f : r.files) {
        snprintf(b, sizeof b, "mode=%o flags=%x verify=%x color=%x rdev=%x", f.mode, f.flags, f.verify, f.color, f.rdev);
        s += "file rpm=" + r.id + " path=" + esc(f.path) + " " + b + " link=" + esc(f.link);     // paths and links have no bound here
        snprintf(b, sizeof b, " hard=%d ghost=%d bad=%d c=", f.hard, f.ghost, f.badsize);
        s += b + ctext(f.c) + "\n";
    }
    return s;
}
bool spec_parse(const std::vector<std::string> &tok, RpmSpec &r) {
    for (size_t i = 1; i < tok.size(); i++) {
        size_t e = tok[i].find('='); if (e == std::string::npos) return false;
        std::string k = tok[i].substr(0, e), v = tok[i].substr(e + 1);
        if (k == "id") r.id = v; else if (k == "name") r.name = unesc(v); else if (k == "ver") r.ver = unesc(v); else if (k == "rel") r.rel = unesc(v); else if (k == "arch") r.arch = v;
        else if (k == "epoch") r.epoch = atoll(v.c_str()); else if (k == "src") r.src = atoi(v.c_str()); else if (k == "comp") r.comp = v; else if (k == "level") r.level = atoi(v.c_str());
        else if (k == "digest") r.digest = atoi(v.c_str()); else if (k == "sigmd5") r.sigmd5 = atoi(v.c_str()); else if (k == "colors") r.colors = atoi(v.c_str());
        else if (k == "order") r.order = strtoull(v.c_str(), nullptr, 10); else if (k == "cseed") r.cseed = strtoull(v.c_str(), nullptr, 10); else if (k == "pad") r.pad = atoi(v.c_str());
        else if (k == "flagless") r.flagless = atoi(v.c_str()); else if (k == "dot") r.dotslash = atoi(v.c_str()); else if (k == "rsvd") r.rsvd = atoi(v.c_str()); else if (k == "fmt") r.fmt = v;
    }
    return !r.id.empty();
}
bool file_parse(const std::vector<std::string> &tok, FileSpec &f) {
    for (size_t i = 1; i < tok.size(); i++) {
        size_t e = tok[i].find('='); if (e == std::string::npos) return false;
        std::string k = tok[i].substr(0, e), v = tok[i].substr(e + 1);
        if (k == "path") f.path = unesc(v); else if (k == "mode") f.mode = (unsigned)strtoul(v.c_str(), nullptr, 8); else if (k == "flags") f.flags = (uint32_t)strtoul(v.c_str(), nullptr, 16);
        else if (k == "verify") f.verify = (uint32_t)strtoul(v.c_str(), nullptr, 16); else if (k == "color") f.color = (uint32_t)strtoul(v.c_str(), nullptr, 16);
        else if (k == "rdev") f.rdev = (uint16_t)strtoul(v.c_str(), nullptr, 16); else if (k == "link") f.link = unesc(v); else if (k == "hard") f.hard = atoi(v.c_str());
        else if (k == "ghost") f.ghost = atoi(v.c_str()); else if (k == "bad") f.badsize = atoi(v.c_str()); else if (k == "c") f.c = cparse(v);
    }
    return true;
}

// ------------------------------------------------------------------ building
std::string nevr_of(const RpmSpec &s) {
    return s.name + "-" + (s.epoch >= 0 ? std::to_string(s.epoch) + ":" : "") + s.ver + "-" + s.rel;
}
static void cpio_entry(Bytes &o, const std::string &name, unsigned ino, unsigned mode, unsigned nlink, uint32_t mtime, uint32_t size, uint16_t rdev, const Bytes *data) {
    char h[128];
    snprintf(h, sizeof h, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", ino, mode, 0u, 0u, nlink, mtime, size, 0u, 0u, (unsigned)(rdev >> 8), (unsigned)(rdev & 0xff), (unsigned)name.size() + 1, 0u);
    o.insert(o.end(), h, h + 110);
    o.insert(o.end(), name.begin(), name.end()); o.push_back(0);
    while (o.size() % 4) o.push_back(0);
    if (data) { o.insert(o.end(), data->begin(), data->end()); while (o.size() % 4) o.push_back(0); }
}
static void put_strs(Header h, rpmTagVal t, const std::vector<std::string> &v) {
    std::vector<const char *> p; for (auto &s : v) p.push_back(s.c_str());
    struct rpmtd_s td; rpmtdReset(&td); td.tag = t; td.type = RPM_STRING_ARRAY_TYPE; td.data = p.data(); td.count = (rpm_count_t)p.size();
    if (!p.empty()) headerPut(h, &td, HEADERPUT_DEFAULT);
}
template <class T> static void put_num(Header h, rpmTagVal t, rpmTagType ty, std::vector<T> v) {
    struct rpmtd_s td; rpmtdReset(&td); td.tag = t; td.type = ty; td.data = v.data(); td.count = (rpm_count_t)v.size();
    if (!v.empty()) headerPut(h, &td, HEADERPUT_DEFAULT);
}
BuiltRpm build_rpm(const RpmSpec &s) {
    BuiltRpm R; R.nevr = nevr_of(s);
    Header h = headerNew();
    headerPutString(h, RPMTAG_NAME, s.name.c_str());
    headerPutString(h, RPMTAG_VERSION, s.ver.c_str());
    headerPutString(h, RPMTAG_RELEASE, s.rel.c_str());
    if (s.epoch >= 0) put_num<uint32_t>(h, RPMTAG_EPOCH, RPM_INT32_TYPE, {(uint32_t)s.epoch});
    headerPutString(h, RPMTAG_SUMMARY, "simulated package");
    headerPutString(h, RPMTAG_OS, "linux");
    headerPutString(h, RPMTAG_ARCH, s.arch.c_str());
    put_num<uint32_t>(h, RPMTAG_BUILDTIME, RPM_INT32_TYPE, {(uint32_t)(1400000000u + (uint32_t)(s.cseed % 100000))});
    if (!s.src) headerPutString(h, RPMTAG_SOURCERPM, (s.name + "-" + s.ver + "-" + s.rel + ".src.rpm").c_str());
    headerPutString(h, RPMTAG_PAYLOADFORMAT, s.fmt.c_str());
    if (s.comp != "none") headerPutString(h, RPMTAG_PAYLOADCOMPRESSOR, s.comp.c_str());
    if (!s.flagless) headerPutString(h, RPMTAG_PAYLOADFLAGS, std::to_string(s.level ? s.level : 9).c_str());
    if (s.pad) { std::string d; Rng r(s.cseed); for (int i = 0; i < s.pad; i++) d += (char)('a' + r.below(26)); headerPutString(h, RPMTAG_DESCRIPTION, d.c_str()); }
    // files
    std::vector<std::string> base, dirs, digests, links; std::vector<uint32_t> didx, sizes, flags, verify, colors; std::vector<uint16_t> modes, rdevs;
    for (auto &f : s.files) {
        size_t sl = f.path.rfind('/'); std::string d = sl == std::string::npos ? "" : f.path.substr(0, sl + 1), b = sl == std::string::npos ? f.path : f.path.substr(sl + 1);
        auto it = std::find(dirs.begin(), dirs.end(), d);
        if (it == dirs.end()) { dirs.push_back(d); it = dirs.end() - 1; }
        didx.push_back((uint32_t)(it - dirs.begin())); base.push_back(b);
        Bytes c; unsigned ty = f.mode & 0170000;
        if (ty == 0100000) c = render(f.c);
        uint8_t dg[32];
        std::string ds;
        if (ty == 0100000) { if (s.digest == 8) { sha256(c.data(), c.size(), dg); ds = hex(dg, 32); } else { md5(c.data(), c.size(), dg); ds = hex(dg, 16); } }
        if (f.ghost) ds = "";
        if (!ds.empty() && f.badsize & 2) ds[f.c.seed % ds.size()] = "gz:@`/ "[f.c.seed % 7];
        if (!ds.empty() && f.badsize & 4) ds.resize(ds.size() - 1 - f.c.seed % 3);
        if (!ds.empty() && f.badsize & 8) for (auto &x : ds) x = (char)toupper(x);
        digests.push_back(ds);
        sizes.push_back(ty == 0100000 ? (uint32_t)c.size() : ty == 0120000 ? (uint32_t)f.link.size() : ty == 0040000 ? 4096 : 0);
        if (f.badsize & 1) sizes.back() += 3;
        modes.push_back((uint16_t)f.mode); rdevs.push_back(f.rdev); flags.push_back(f.flags); verify.push_back(f.verify); colors.push_back(f.color); links.push_back(ty == 0120000 ? f.link : "");
        R.contents.push_back(c);
    }
    if (!s.files.empty()) {
        put_strs(h, RPMTAG_BASENAMES, base); put_strs(h, RPMTAG_DIRNAMES, dirs); put_num<uint32_t>(h, RPMTAG_DIRINDEXES, RPM_INT32_TYPE, didx);
        put_num<uint32_t>(h, RPMTAG_FILESIZES, RPM_INT32_TYPE, sizes); put_num<uint16_t>(h, RPMTAG_FILEMODES, RPM_INT16_TYPE, modes); put_num<uint16_t>(h, RPMTAG_FILERDEVS, RPM_INT16_TYPE, rdevs);
        put_strs(h, RPMTAG_FILEDIGESTS, digests); put_strs(h, RPMTAG_FILELINKTOS, links); put_num<uint32_t>(h, RPMTAG_FILEFLAGS, RPM_INT32_TYPE, flags);
        put_num<uint32_t>(h, RPMTAG_FILEVERIFYFLAGS, RPM_INT32_TYPE, verify);
        if (s.colors) put_num<uint32_t>(h, RPMTAG_FILECOLORS, RPM_INT32_TYPE, colors);
        if (s.digest) put_num<uint32_t>(h, RPMTAG_FILEDIGESTALGO, RPM_INT32_TYPE, {(uint32_t)s.digest});
    }
    h = headerReload(h, RPMTAG_HEADERIMMUTABLE);
    unsigned hl = 0; uint8_t *hb = (uint8_t *)headerExport(h, &hl);
    R.headerblob.assign(hb, hb + hl);
    free(hb); headerFree(h);
    R.header.assign(rpm_header_magic, rpm_header_magic + 8); R.header.insert(R.header.end(), R.headerblob.begin(), R.headerblob.end());
    // payload
    std::vector<size_t> ord; for (size_t i = 0; i < s.files.size(); i++) ord.push_back(i);
    if (s.order) { Rng r(s.order); if (r.chance(1, 3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]); else if (r.chance(1, 2)) std::reverse(ord.begin(), ord.end()); else if (ord.size() > 1) std::rotate(ord.begin(), ord.begin() + (long)(1 + r.below(ord.size() - 1)), ord.end()); }
    Rng cr(s.cseed); unsigned ino = 1;
    std::map<int, int> hleft; std::map<int, unsigned> hino;
    for (auto i : ord) if (s.files[i].hard && !s.files[i].ghost) hleft[s.files[i].hard]++;
    std::map<int, int> hcount = hleft;
    for (auto i : ord) {
        auto &f = s.files[i]; if (f.ghost) continue;
        unsigned ty = f.mode & 0170000; uint32_t mt = 1300000000u + (uint32_t)cr.below(1000000);
        std::string nm = s.dotslash && f.path[0] == '/' ? "." + f.path : f.path;
        unsigned in = ino++;
        if (ty == 0100000) {
            if (f.hard && hcount[f.hard] > 1) {
                if (!hino.count(f.hard)) hino[f.hard] = in;
                bool last = --hleft[f.hard] == 0; static const Bytes none;
                cpio_entry(R.cpio, nm, hino[f.hard], f.mode, (unsigned)hcount[f.hard], mt, last ? (uint32_t)R.contents[i].size() : 0, 0, last ? &R.contents[i] : &none);
            } else cpio_entry(R.cpio, nm, in, f.mode, 1, mt, (uint32_t)R.contents[i].size(), 0, &R.contents[i]);
        } else if (ty == 0120000) { Bytes l(f.link.begin(), f.link.end()); cpio_entry(R.cpio, nm, in, f.mode, 1, mt, (uint32_t)l.size(), 0, &l); }
        else cpio_entry(R.cpio, nm, in, f.mode, ty == 0040000 ? 2 : 1, mt, 0, f.rdev, nullptr);
    }
    cpio_entry(R.cpio, "TRAILER!!!", 0, 0, 1, 0, 0, 0, nullptr);
    R.payload = compress_as(R.cpio, s.comp, s.level);
    // signature and lead
    Header sg = headerNew();
    Bytes body = R.header; body.insert(body.end(), R.payload.begin(), R.payload.end());
    md5(body.data(), body.size(), R.sigmd5);
    put_num<uint32_t>(sg, RPMSIGTAG_SIZE, RPM_INT32_TYPE, {(uint32_t)body.size()});
    if (s.sigmd5) { struct rpmtd_s td; rpmtdReset(&td); td.tag = RPMSIGTAG_MD5; td.type = RPM_BIN_TYPE; td.data = R.sigmd5; td.count = 16; headerPut(sg, &td, HEADERPUT_DEFAULT); }
    put_num<uint32_t>(sg, RPMSIGTAG_PAYLOADSIZE, RPM_INT32_TYPE, {(uint32_t)R.cpio.size()});
    if (s.rsvd > 0) { Bytes z((size_t)s.rsvd, 0); struct rpmtd_s td; rpmtdReset(&td); td.tag = 1008; td.type = RPM_BIN_TYPE; td.data = z.data(); td.count = (rpm_count_t)z.size(); headerPut(sg, &td, HEADERPUT_DEFAULT); }
    sg = headerReload(sg, RPMTAG_HEADERSIGNATURES);
    unsigned sl = 0; uint8_t *sb = (uint8_t *)headerExport(sg, &sl); headerFree(sg);
    Bytes lead(96, 0); lead[0] = 0xed; lead[1] = 0xab; lead[2] = 0xee; lead[3] = 0xdb; lead[4] = 3; lead[7] = s.src ? 1 : 0; lead[9] = 1;
    std::string ln = (R.nevr + "." + s.arch).substr(0, 65); memcpy(lead.data() + 10, ln.data(), ln.size()); lead[77] = 1; lead[79] = 5;
    R.leadsig = lead; R.leadsig.insert(R.leadsig.end(), rpm_header_magic, rpm_header_magic + 8); R.leadsig.insert(R.leadsig.end(), sb, sb + sl); free(sb);
    while (R.leadsig.size() % 8) R.leadsig.push_back(0);
    R.rpm = R.leadsig; R.rpm.insert(R.rpm.end(), body.begin(), body.end());
    return R;
}

// ------------------------------------------------------------------ random packages
static const char *dirs_[] = {"/usr/bin/", "/usr/lib/", "/usr/lib64/", "/etc/", "/usr/share/doc/sim/", "/opt/a b/", "/var/lib/sim/", "/lib/", "/usr/libexec/", "/srv/very/deep/directory/structure/of/simulated/things/"};
static const char *names_[] = {"alpha", "beta", "gamma.so.1", "delta", "README", "conf.d", "x", "libsim.so", "data.bin", "image", "a-rather-long-file-name-with-version-1.2.3"};
static Content gen_content(Rng &r, uint32_t max, bool noisy = false, bool elf = false) {
    if (noisy && r.chance(3, 4)) { Content c; c.kind = 'r'; c.seed = r.next() % 1000000; c.size = max / 3 + (uint32_t)r.below(max - max / 3 + 1); return c; }
    Content c; c.kind = elf && r.chance(3, 4) ? 'e' : "rrttmmzpex"[r.below(10)]; c.seed = r.next() % 1000000;
    switch (r.below(10)) {
    case 0: c.size = 0; break;
    case 1: c.size = 1 + (uint32_t)r.below(16); break;
    case 2: case 3: case 4: c.size = (uint32_t)r.below(1500); break;
    case 5: { uint32_t k = 512u << r.below(6); c.size = k - 2 + (uint32_t)r.below(5); break; }
    default: c.size = (uint32_t)r.below(max + 1);
    }
    if (c.size > max) c.size = max;
    if (elf && c.kind == 'e' && r.chance(1, 2)) c.size = 600 + (uint32_t)r.below(40000);
    return c;
}
static FileSpec gen_file(Rng &r, const GenOpt &o, bool src, int n) {
    FileSpec f;
    char nb[32]; snprintf(nb, sizeof nb, "%s%d", "", n);
    std::string nm = std::string(names_[r.below(11)]) + nb;
    if (r.chance(1, 30)) switch (r.below(4)) {
        case 0: nm += "-" + std::string(r.chance(1, 2) ? 60 + r.below(190) : 100 + r.below(12), 'n'); break;
        case 1: nm += "\xc3\xa9\xe2\x82\xac"; break;
        case 2: nm += "%s%n"; break;
        default: nm += "\xff\x80"; break;
    }
    std::string deep; if (!src && r.chance(1, 60)) { int k = (int)r.range(1, 5); while (k--) deep += std::string(r.range(1, r.chance(1, 3) ? 240 : 40), "abcxyz"[r.below(6)]) + "/"; }
    f.path = src ? nm : std::string(dirs_[r.below(10)]) + deep + nm;
    unsigned t = src ? 0 : o.links && r.chance(1, 2) ? 16 : (unsigned)r.below(20);
    if (t < 13) {
        f.mode = 0100000 | (r.chance(1, 4) ? 0755 : r.chance(1, 4) ? 0600 : 0644); f.c = gen_content(r, o.max_size, o.noisy, o.elf);
        if (o.allow_odd) {
            if (r.chance(1, 10)) f.flags |= 1;                    // %config
            if (r.chance(1, 25)) f.flags |= 8;                    // missingok
            if (r.chance(1, 25)) f.verify &= ~1u;                 // not verify md5
            if (r.chance(1, 25)) f.verify &= ~2u;                 // not verify size
            if (r.chance(1, 40)) f.badsize = r.chance(1, 2) ? 1 : 1 << r.range(1, 3);      // a wrong size, or a malformed, cut or upper-case digest
            if (r.chance(1, 20)) { f.flags |= 64; f.ghost = true; }
            if (r.chance(1, 15)) f.flags |= 2;                    // %doc
        }
        if (f.c.kind == 'e' || f.c.kind == 'x' || r.chance(1, 10)) f.color = 1u + (uint32_t)r.below(2);
    } else if (t < 15) { f.mode = 040755; }
    else if (t < 18) { f.mode = 0120777; size_t l = 1 + r.below(o.links ? (r.chance(1, 2) ? 4090 : 900) : r.chance(1, 6) ? 200 : 30); for (size_t i = 0; i < l; i++) f.link += "abc/def.gh"[r.below(10)]; }
    else if (t < 19) { f.mode = (r.chance(1, 2) ? 0020000 : 0060000) | 0660; f.rdev = (uint16_t)r.below(65536); }
    else f.mode = 0010644;   // fifo
    return f;
}
static void pick_comp(Rng &r, const GenOpt &o, RpmSpec &s) {
    static const char *cs[] = {"gzip", "gzip", "gzip", "gzip", "gzip", "bzip2", "xz", "lzma", "zstd", "zstd"};
    s.comp = o.force_comp.empty() ? cs[r.below(10)] : o.force_comp;
    if (s.comp == "gzip") s.level = r.chance(1, 2) ? 9 : (int)r.range(1, 9);
    else if (s.comp == "bzip2") s.level = r.chance(1, 2) ? 9 : (int)r.range(1, 9);
    else if (s.comp == "lzma") s.level = r.chance(1, 6) ? 2 : r.chance(3, 4) ? 1 : r.chance(1, 20) ? (int)r.range(4, 9) : (int)r.range(1, 3);
    else if (s.comp == "xz") s.level = r.chance(1, 8) ? 3 : r.chance(3, 4) ? 1 : r.chance(1, 20) ? (int)r.range(4, 9) : (int)r.range(1, 3);
    else if (s.comp == "zstd") s.level = r.chance(1, 25) ? (int)r.range(10, 19) : (int)r.range(1, 6);
    if (o.v1) s.level = s.comp == "gzip" ? 9 : s.comp == "bzip2" ? 9 : s.comp == "lzma" ? 2 : s.comp == "xz" ? 3 : s.comp == "zstd" ? 19 : s.level;
}
// choose sizes so that archive members end at, or just around, the block boundaries of the delta format (8192 bytes)
static void align_files(Rng &r, RpmSpec &s) {
    if (r.chance(2, 3)) s.order = 0;
    uint64_t off = 0;
    for (auto &f : s.files) {
        unsigned ty = f.mode & 0170000; if (f.ghost || (f.verify != 0xffffffff && r.chance(1, 2))) continue;
        uint64_t h = 110 + f.path.size() + (f.path[0] == '/' ? 2 : 3); h += (4 - h % 4) % 4;
        auto want = [&](uint64_t lo) { uint64_t e = off + h + lo; e += (8192 - e % 8192) % 8192; if (r.chance(1, 4)) e += 8192; static const int d[] = {0, 0, 0, -4, 4, -8, -60, -112, -116, -120, -124, -160}; int64_t x = (int64_t)(e - off - h) + d[r.below(12)]; return (uint64_t)std::max<int64_t>(x, 4); };
        uint64_t len = 0;
        if (ty == 0100000 && !f.hard) { if (r.chance(2, 3)) { f.c.size = (uint32_t)(want(1) - r.below(4)); } len = f.c.size; }
        else if (ty == 0120000) { uint64_t left = want(1); if (r.chance(2, 3) && left < 4000) { left -= r.below(4); f.link.clear(); for (uint64_t i = 0; i < left || i == 0; i++) f.link += "lmn/opq.rs"[r.below(10)]; } len = f.link.size(); }
        off += h + (len + 3) / 4 * 4;
    }
}
static void cap_size(RpmSpec &s, const GenOpt &o);
RpmSpec gen_rpm(Rng &r, const GenOpt &o, const std::string &id) {
    RpmSpec s; s.id = id;
    static const char *nm[] = {"sim", "lib-sim", "sim-2", "s", "python3-sim_x", "sim+c++"};
    s.name = nm[r.below(6)]; s.ver = std::to_string(r.range(0, 9)) + "." + std::to_string(r.range(0, 20)); s.rel = std::to_string(r.range(1, 30)) + (r.chance(1, 2) ? ".fc30" : "");
    if (r.chance(1, 4)) s.epoch = (int64_t)r.below(3);
    s.arch = r.chance(1, 4) ? "noarch" : "x86_64";
    s.src = !o.installable && r.chance(1, 15);
    s.digest = r.chance(1, 3) ? 1 : r.chance(1, 10) ? 0 : 8;
    s.colors = r.chance(1, 4); s.order = r.chance(1, 2) ? 0 : 1 + r.below(1000000); s.cseed = 1 + r.below(1000000);
    s.pad = r.chance(1, 4) ? (int)r.below(6000) : (int)r.below(40); s.rsvd = r.chance(1, 3) ? (int)r.below(4000) : 0;
    if (o.allow_odd && r.chance(1, 25)) s.sigmd5 = false;
    if (o.allow_odd && r.chance(1, 60)) { static const char *pf[] = {"drpm", "xar", "cpi", "cpio2", "CPIO"}; s.fmt = pf[r.below(5)]; }
    pick_comp(r, o, s);
    int n = r.chance(1, 20) ? 0 : r.chance(1, 12) ? 1 : (int)r.range(std::max(1, o.min_files), std::max({1, o.min_files, o.max_files}));
    std::set<std::string> seen;
    for (int i = 0; i < n; i++) { FileSpec f = gen_file(r, o, s.src, i); if (seen.insert(f.path).second) s.files.push_back(f); }
    if (!s.src && o.allow_odd && r.chance(1, 8)) {   // hard link set
        Content c = gen_content(r, o.max_size); int k = (int)r.range(2, 3);
        for (int i = 0; i < k; i++) { FileSpec f; f.path = "/usr/bin/hard" + std::to_string(i); f.mode = 0100755; f.hard = 1; f.c = c; s.files.push_back(f); }
    }
    std::sort(s.files.begin(), s.files.end(), [](const FileSpec &a, const FileSpec &b) { return a.path < b.path; });
    if (o.installable && r.chance(1, 10) == false && s.src) s.src = false;
    cap_size(s, o); if (o.align) align_files(r, s);
    return s;
}
static void cap_size(RpmSpec &s, const GenOpt &o) {      // keep a package small enough for a call to end soon
    uint64_t cap = o.max_size > 10000000 ? 24000000 : 2500000, sum = 0; for (auto &f : s.files) sum += f.c.size;
    if (sum > cap) for (auto &f : s.files) if (f.c.size > cap / s.files.size()) f.c.size = (uint32_t)(cap / s.files.size());
}
RpmSpec evolve(Rng &r, const RpmSpec &from, const GenOpt &o, const std::string &id) {
    RpmSpec s = from; s.id = id;
    if (!r.chance(1, 12)) { if (r.chance(1, 2)) s.rel = std::to_string(r.range(31, 60)); else s.ver = std::to_string(r.range(10, 20)) + ".0"; }
    if (r.chance(1, 12)) s.epoch = 5;
    if (o.allow_odd && r.chance(1, 25)) s.sigmd5 = !s.sigmd5;
    if (r.chance(1, 3)) pick_comp(r, o, s); else if (o.v1) { std::string c = s.comp; GenOpt q = o; q.force_comp = c == "none" || c == "lzip" ? "gzip" : c; pick_comp(r, q, s); }
    s.cseed = 1 + r.below(1000000); if (r.chance(1, 3)) s.pad = (int)r.below(3000); if (r.chance(1, 3)) s.order = r.below(1000);
    if (r.chance(1, 10)) s.digest = s.digest == 8 ? 1 : 8;
    if (s.fmt != "cpio" ? r.chance(1, 2) : o.allow_odd && r.chance(1, 60)) s.fmt = s.fmt == "cpio" ? r.chance(1, 2) ? "drpm" : "xar" : "cpio";
    std::vector<FileSpec> nf; int uniq = 100;
    unsigned rate = (unsigned)r.below(5);      // how much changes
    for (auto f : s.files) {
        if (r.below(12) < rate / 2) continue;  // removed
        if ((f.mode & 0170000) == 0100000 && r.below(6) < rate + 1) f.c.edits.push_back({r.below(1000000), (int)r.range(1, r.chance(1, 4) ? 40 : 4)});
        if ((f.mode & 0170000) == 0120000 && r.chance(1, 6)) f.link += "x";
        if (r.chance(1, 20)) f.path += ".new";
        nf.push_back(f);
    }
    int add = (int)r.below(3);
    for (int i = 0; i < add; i++) nf.push_back(gen_file(r, o, s.src, uniq++));
    std::sort(nf.begin(), nf.end(), [](const FileSpec &a, const FileSpec &b) { return a.path < b.path; });
    nf.erase(std::unique(nf.begin(), nf.end(), [](const FileSpec &a, const FileSpec &b) { return a.path == b.path; }), nf.end());
    // hard-linked files share their content
    std::map<int, Content> hc; for (auto &f : nf) if (f.hard) { if (!hc.count(f.hard)) hc[f.hard] = f.c; else f.c = hc[f.hard]; }
    s.files = nf; cap_size(s, o);
    return s;
}

#pragma once
#include "sim.h"

struct Content { char kind = 'r'; uint64_t seed = 1; uint32_t size = 0; std::vector<std::pair<uint64_t, int>> edits; };
Bytes render(const Content &c);
Bytes make_elf(const Content &c, uint32_t size);        // ELF image with section table, not prelinked
Bytes prelink_image(const Bytes &orig, uint64_t seed, bool near = false);  // what "prelink" would leave on disk; near: same shape, but nothing to undo

struct FileSpec {
    std::string path; unsigned mode = 0100644; uint32_t flags = 0, verify = 0xffffffff, color = 0; uint16_t rdev = 0;
    std::string link; int hard = 0; bool ghost = false; int badsize = 0; Content c;
};
struct RpmSpec {
    std::string id, name, ver, rel, arch; int64_t epoch = -1; bool src = false;
    std::string comp = "gzip"; int level = 9; int digest = 8; bool sigmd5 = true; bool colors = false;
    uint64_t order = 0, cseed = 1; int pad = 0; bool flagless = false; bool dotslash = true; int rsvd = 0; std::string fmt = "cpio";
    std::vector<FileSpec> files;
};
std::string spec_text(const RpmSpec &);
bool spec_parse(const std::vector<std::string> &tok, RpmSpec &);       // "rpm" line
bool file_parse(const std::vector<std::string> &tok, FileSpec &);      // "file" line

struct BuiltRpm {
    Bytes rpm;              // complete file
    Bytes leadsig, header;  // header including magic
    Bytes headerblob;       // without the magic (as in the rpmdb)
    Bytes payload;          // compressed
    Bytes cpio;             // uncompressed
    std::string nevr;
    uint8_t sigmd5[16];
    std::vector<Bytes> contents;   // per file
};
BuiltRpm build_rpm(const RpmSpec &);
Bytes compress_as(const Bytes &in, const std::string &comp, int level);
int decompress_any(const Bytes &in, Bytes &out, size_t *used, std::string *comp, size_t cap = 256u << 20);  // 0 ok
std::string nevr_of(const RpmSpec &);
std::string hex(const uint8_t *p, size_t n);
void md5(const void *p, size_t n, uint8_t out[16]);
void sha256(const void *p, size_t n, uint8_t out[32]);
std::vector<std::string> split(const std::string &s, char sep = ' ');
std::string esc(const std::string &);
std::string unesc(const std::string &);

// random worlds
struct GenOpt { int max_files = 12, min_files = 0; bool links = false; uint32_t max_size = 30000; bool installable = false; bool cheap = true; bool allow_odd = true; std::string force_comp; bool v1 = false; bool noisy = false; bool elf = false, align = false; };
RpmSpec gen_rpm(Rng &r, const GenOpt &o, const std::string &id);
RpmSpec evolve(Rng &r, const RpmSpec &from, const GenOpt &o, const std::string &id);

// Independent executable reference of the delta format and of what an RPM contains (shares no code with drpm).
#pragma once
#include "sim.h"
#include <unordered_map>
#include "gen.h"

struct RFile { std::string name, link, digest; unsigned mode = 0; uint32_t size = 0, flags = 0, verify = 0, color = 0; uint16_t rdev = 0; };
struct RefRpm {
    bool ok = false; std::string why;
    Bytes leadsig, header; size_t payload_off = 0; Bytes payload, cpio; bool cpio_ok = false;
    std::string nevr, comp, flags; bool has_flags = false; int level = 0;
    uint32_t payload_fmt_off = 0; bool sigmd5 = false; int64_t sigsize = -1; uint8_t md5[16] = {0}; bool src = false;
    int digest = 1; bool colors = false; std::vector<RFile> files;
};
RefRpm ref_rpm(const Bytes &b, bool want_payload = true);
RefRpm ref_header(const Bytes &blob);          // rpmdb header (no lead/signature/payload)

struct RefDelta {
    bool ok = false; std::string why;
    int type = 0, ver = 0; std::string comp;       // compression of the body
    std::string src_nevr, tgt_nevr; Bytes seq; uint8_t tgt_md5[16] = {0};
    uint32_t tgt_size = 0, tgt_comp = 0, tgt_header_len = 0, payload_fmt_off = 0; Bytes comp_param;
    std::vector<std::pair<uint32_t, int64_t>> offadj;
    Bytes leadsig; std::vector<std::pair<uint32_t, uint32_t>> ints; std::vector<std::pair<int64_t, uint32_t>> exts;
    uint64_t ext_len = 0; Bytes add, idata;
    Bytes header;                                   // standard: header stored in the delta (payload format "drpm")
    Bytes outsig;                                   // standard: lead and signature of the delta file itself
    bool sig_ok = true;                             // standard: stored signature matches
    size_t consumed = 0, body_len = 0;
    std::string hdr_comp; int hdr_level = 0;
    std::vector<size_t> fields, counts; Bytes body; size_t body_off = 0;   // where numbers and lengths start in the uncompressed body
};
RefDelta ref_delta(const Bytes &b);
Bytes ref_encode(const RefDelta &d, const std::string &comp, int level);                 // the bytes of a delta
bool ref_rediff(RefDelta &d, const Bytes &old, const Bytes &target, Rng &r);              // other copies, same result
struct Altered { Bytes cpio; Bytes seq; std::vector<std::pair<uint32_t, int64_t>> offadj; std::vector<size_t> order; bool ok = false; };
Altered ref_alter(const RefRpm &old, const std::set<size_t> &skip = {});   // altered archive + sequence of a standard delta; skip: files the patch lists exclude
bool ref_old_data(const RefDelta &d, const RefRpm &old, Bytes &out, const Altered *a = nullptr);
bool ref_diff_apply(const RefDelta &d, const Bytes &old, Bytes &out, std::string &why);
bool ref_apply(const RefDelta &d, const RefRpm &old, Bytes &out, std::string &why, const Altered *a = nullptr);
// patch lists (RPML): what they say, and their bytes
struct RList { std::string nevr; struct E { std::string name, md5; bool unpatched; unsigned mode = 0; uint32_t size = 0; std::string raw; }; std::vector<E> e; };
Bytes ref_rpml(const RList &l, uint64_t style);
std::set<size_t> ref_excluded(const RefRpm &old, const RList &print, const RList &patch);
// sequence of a set of header files in a given order
Bytes ref_seq(const std::vector<RFile> &files, const std::vector<size_t> &order, int digest, bool &ok);
Bytes unhex(const std::string &s);
bool ref_seq_expand(const Bytes &seq, size_t nfiles, std::vector<size_t> &order);

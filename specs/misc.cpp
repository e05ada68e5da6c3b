#include "segy.hpp"
#include "cp037.hpp"
#include <utility>
using namespace sg;

// ---- text conversion: cfg 0 EBCDIC to ASCII, 1 ASCII to EBCDIC
extern "C" void h_ebcdic(int cfg)
{
    uint64_t n = vf_u32("n_len");
    std::string s = vf_string("text", n);
    std::string o = s;
    if (cfg == 0)
        CommonSEGY::ebcdic_to_ascii(s);
    else
        CommonSEGY::ascii_to_ebcdic(s);
    vf_assert(s.size() == n, "conversion keeps the length of the text");
    vf_forall(n, [&](uint64_t i) {
        uint8_t e = uint8_t(cfg == 0 ? o[i] : s[i]), a = uint8_t(cfg == 0 ? s[i] : o[i]);
        vf_assert(cp037[e] == a, "every character is the code page 037 counterpart");
    });
    vf_cover("ebcdic");
}
// 0: there and back, 1: back and there
extern "C" void h_ebcdic_round(int cfg)
{
    uint64_t n = vf_u32("n_len");
    std::string s = vf_string("text", n);
    std::string o = s;
    if (cfg == 0) {
        CommonSEGY::ebcdic_to_ascii(s);
        CommonSEGY::ascii_to_ebcdic(s);
    } else {
        CommonSEGY::ascii_to_ebcdic(s);
        CommonSEGY::ebcdic_to_ascii(s);
    }
    vf_forall(n, [&](uint64_t i) {
        vf_assert(s[i] == o[i], "converting to the other encoding and back gives the original text");
    });
    vf_cover("ebcdic_round");
}

// ---- exceptions: message "file line text"; cfg = how: 0 original, 1 copy, 2 move, 3 rethrown copy, 4 built from temporaries
static void check_what(char const* w, std::string const& f, unsigned long long line, std::string const& m)
{
    vf_forall(f.size(), [&](uint64_t i) { vf_assert(w[i] == f[i], "the message starts with the file"); });
    vf_assert(w[f.size()] == ' ', "a blank follows the file");
    uint64_t p = f.size() + 1;
    vf_forall(vf_declen(line), [&](uint64_t i) { vf_assert(uint8_t(w[p + i]) == vf_decchar(line, i), "the message names the line"); });
    p += vf_declen(line);
    vf_assert(w[p] == ' ', "a blank follows the line");
    ++p;
    vf_forall(m.size(), [&](uint64_t i) { vf_assert(w[p + i] == m[i], "the message ends with the text"); });
    vf_assert(w[p + m.size()] == 0, "nothing follows the text");
}
extern "C" void h_exc(int cfg)
{
    std::string f = vf_string("file", vf_u16("n_f"));
    std::string m = vf_string("msg", vf_u16("n_m"));
    unsigned long long line = vf_u64("n_line");
    int how = cfg & 3;
    if (cfg & 4) {
        Exception e(std::string(f), line, std::string(m));
        check_what(e.what(), f, line, m);
        vf_cover("exc");
        return;
    }
    Exception e(f, line, m);
    if (how == 0) {
        check_what(e.what(), f, line, m);
    } else if (how == 1) {
        Exception c(e);
        check_what(c.what(), f, line, m);
        check_what(e.what(), f, line, m);
    } else if (how == 2) {
        Exception c(std::move(e));
        check_what(c.what(), f, line, m);
    } else {
        try {
            throw e;
        } catch (std::exception const& x) {
            check_what(x.what(), f, line, m);
        }
    }
    vf_cover("exc");
}

// ---- header maps
static unsigned vsize(unsigned t)
{
    static unsigned char const s[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
    return s[t];
}
static bool refused(Maps m, CommonSEGY::BinaryHeader bh)
{
    vf_fnew("in.sgy", 0);
    try {
        CommonSEGY c(vf_path("in.sgy"), std::ios_base::in | std::ios_base::binary, bh, std::move(m));
    } catch (Exception const&) {
        return true;
    }
    return false;
}
// one field anywhere; cfg: which header of the map it is in
extern "C" void h_map1(int cfg)
{
    unsigned t = vf_u8("type");
    vf_assume(t < 13);
    uint32_t p = vf_u32("pos");
    Maps m;
    if (cfg)
        m.push_back({ "SEG00000", Map {} });
    m.push_back({ "SEG00000", Map { { p, { "A", VT(t) } } } });
    vf_assert(refused(m, {}) == (uint64_t(p) + vsize(t) > 240), "a field is accepted exactly when it lies inside the 240 bytes of the header");
    vf_cover("map1");
}
// two fields; cfg = type of the first
extern "C" void h_map2(int cfg)
{
    unsigned t0 = unsigned(cfg), t1 = vf_u8("type1");
    vf_assume(t1 < 13);
    uint32_t p0 = vf_u32("pos0"), p1 = vf_u32("pos1");
    vf_assume(p0 != p1);
    Maps m { { "SEG00000", Map { { p0, { "A", VT(t0) } }, { p1, { "B", VT(t1) } } } } };
    bool out = uint64_t(p0) + vsize(t0) > 240 || uint64_t(p1) + vsize(t1) > 240;
    bool over = p0 < p1 ? uint64_t(p0) + vsize(t0) > p1 : uint64_t(p1) + vsize(t1) > p0;
    vf_assert(refused(m, {}) == (out || over), "fields that overlap or leave the header are refused, all others accepted");
    vf_cover("map2");
}
// three fields in ascending order
extern "C" void h_map3(int)
{
    unsigned t[3];
    uint32_t p[3];
    for (int i = 0; i < 3; ++i) {
        t[i] = vf_u8("type");
        vf_assume(t[i] < 13);
        p[i] = vf_u32("pos");
    }
    vf_assume(p[0] < p[1] && p[1] < p[2]);
    Maps m { { "SEG00000", Map { { p[0], { "A", VT(t[0]) } }, { p[1], { "B", VT(t[1]) } }, { p[2], { "C", VT(t[2]) } } } } };
    bool bad = false;
    for (int i = 0; i < 3; ++i) {
        bad = bad | (uint64_t(p[i]) + vsize(t[i]) > 240);
        if (i)
            bad = bad | (uint64_t(p[i - 1]) + vsize(t[i - 1]) > p[i]);
    }
    vf_assert(refused(m, {}) == bad, "fields that overlap or leave the header are refused, all others accepted");
    vf_cover("map3");
}
// names have eight characters
extern "C" void h_mapname(int cfg)
{
    uint64_t n = vf_u16("n_len");
    Maps m;
    if (cfg)
        m.push_back({ "SEG00000", Map {} });
    m.push_back({ std::string(n, 'x'), Map {} });
    vf_assert(refused(m, {}) == (n != 8), "header names have exactly eight characters");
    vf_cover("mapname");
}
// number of additional headers; cfg = number of maps - 1
extern "C" void h_mapcount(int cfg)
{
    Maps m;
    for (int i = 0; i <= cfg; ++i)
        m.push_back({ "SEG00000", Map {} });
    CommonSEGY::BinaryHeader bh {};
    bh.SEGY_rev_major_ver = vf_u8("major");
    bh.max_num_add_tr_headers = int32_t(vf_u32("max"));
    bool bad = bh.SEGY_rev_major_ver > 1 && bh.max_num_add_tr_headers != 0 && bh.max_num_add_tr_headers != cfg;
    vf_assert(refused(m, bh) == bad, "the map describes as many additional headers as the file has");
    vf_cover("mapcount");
}

// Writing SEG-D revision 2.1: every expected byte is worked out from the standard.
#include "segd.hpp"
#include "OSEGDRev2_1.hpp"
#include <memory>
#include <unordered_map>
using namespace sd;
using GH = CommonSEGD::GeneralHeader;
using GH2 = CommonSEGD::GeneralHeader2;
using GHN = CommonSEGD::GeneralHeaderN;
using CSH = CommonSEGD::ChannelSetHeader;
using Value = Trace::Header::Value;
using UMap = std::unordered_map<std::string, Value>;

static void digits(int64_t h, uint64_t at, unsigned i, unsigned n, uint64_t v, char const* what)
{
    uint64_t t = 0;
    for (unsigned k = 0; k < n; ++k) {
        unsigned d = nib(h, at, i + k);
        vf_assert(d <= 9, what);
        t = t * 10 + d;
    }
    vf_assert(t == v, what);
}
struct W {
    GH gh {};
    GH2 gh2 {};
    std::vector<std::vector<CSH>> cs;
    std::vector<std::shared_ptr<CommonSEGD::AdditionalGeneralHeader>> add;
    std::vector<std::vector<char>> extd, extl;
    Maps maps;
    std::unique_ptr<OSEGDRev2_1> open() const
    {
        vf_fnew("out.sgd", 0);
        return std::make_unique<OSEGDRev2_1>(vf_path("out.sgd"), gh, gh2, cs, add, extd, extl, maps);
    }
};
static CSH set(unsigned st, unsigned num, unsigned chans)
{
    return CSH(int(st), uint16_t(num), 1, 0, 2000, 0, chans, 1, 3, 400, 18, 3, 12, 50, 60, 16, 0, 0, 1, 1, 2, 1);
}
// st scan types of n channel sets of the given number of channels
static W basic(int fmt, unsigned st = 1, unsigned n = 1, unsigned chans = 1, unsigned rev = 2)
{
    W w;
    w.gh.format_code = fmt;
    w.gh.file_number = 123;
    w.gh.year = 20;
    w.gh.add_gen_hdr_blocks = 1;
    w.gh.base_scan_int = 2;
    w.gh.record_type = 8;
    w.gh.scan_types_per_record = int(st);
    w.gh.channel_sets_per_scan_type = int(n);
    w.gh2.expanded_file_num = 123;
    w.gh2.segd_rev_major = uint8_t(rev);
    w.gh2.segd_rev_minor = rev == 2 ? 1 : 0;
    w.gh2.gen_hdr_block_num = 2;
    w.gh2.ext_ch_sets_per_scan_type = uint16_t(n);
    for (unsigned s = 0; s < st; ++s) {
        w.cs.emplace_back();
        for (unsigned i = 0; i < n; ++i)
            w.cs.back().push_back(set(s + 1, i + 1, chans));
    }
    return w;
}
static int digitsof(char const* n, int lim)
{
    int v = int(vf_u16(n));
    vf_assume(v < lim);
    return v;
}
// general headers.  cfg 0-2: patterns of the long decimal numbers; from 3 on: one decimal field arbitrary
extern "C" void h_wgh(int cfg)
{
    W w = basic(8058);
    GH& g = w.gh;
    GH2& k = w.gh2;
    g.file_number = cfg == 1 ? 10000 + int(vf_u16("f")) : cfg == 3 ? digitsof("v", 10000) : 4711;
    g.gen_const = cfg == 0 ? 123456789012ll : cfg == 1 ? 999999999999ll : 0;
    g.year = cfg == 4 ? digitsof("v", 100) : 97;
    g.day = cfg == 5 ? digitsof("v", 1000) : 366;
    g.hour = cfg == 6 ? digitsof("v", 100) : 23;
    g.minute = cfg == 7 ? digitsof("v", 100) : 58;
    g.second = cfg == 8 ? digitsof("v", 100) : 59;
    g.manufac_code = cfg == 9 ? digitsof("v", 100) : 13;
    g.manufac_num = cfg == 10 ? digitsof("v", 10000) : 9065;
    g.bytes_per_scan = cfg == 0 ? 102030 : cfg == 1 ? 999999 : 0;
    unsigned base = vf_u8("base");
    g.base_scan_int = base / 16.0;
    g.polarity = cfg == 11 ? digitsof("v", 10) : 7;
    unsigned e = cfg % 4 == 3 ? 15 : unsigned(cfg) % 4 * 3;
    unsigned sc = vf_u8("scans");
    g.scans_per_block = long(sc) << e;
    g.record_type = cfg == 12 ? digitsof("v", 10) : 8;
    g.record_length = cfg == 13 ? digitsof("v", 1000) : 204;
    bool longrec = cfg % 2;
    k.expanded_file_num = vf_u32("x1") & 0xffffff;
    k.segd_rev_minor = vf_u8("x5");
    k.gen_trailer_num_of_blocks = vf_u16("x6");
    k.ext_record_len = longrec ? vf_u32("x7") & 0xffffff : 0;
    vf_assume(!longrec || k.ext_record_len);
    k.gen_hdr_block_num = vf_u8("x8");
    k.sequence_number = vf_u16("x9");
    if (cfg == 2) {
        k.extended_hdr_blocks = vf_u16("x3");
        k.external_hdr_blocks = vf_u16("x4");
    }
    w.open();
    int64_t h = vf_fget("out.sgd");
    vf_assert(vf_fsize(h) == 96, "a record starts with its headers");
    char const* m = "every field of general header 1 is stored at its place";
    if (cfg == 1)
        vf_assert(be(h, 0, 2) == 0xffff, m);
    else
        digits(h, 0, 0, 4, uint64_t(g.file_number), m);
    digits(h, 2, 0, 4, 8058, m);
    digits(h, 4, 0, 12, uint64_t(g.gen_const), m);
    digits(h, 10, 0, 2, uint64_t(g.year), m);
    vf_assert(nib(h, 11, 0) == 1, m);
    digits(h, 11, 1, 3, uint64_t(g.day), m);
    digits(h, 13, 0, 2, uint64_t(g.hour), m);
    digits(h, 14, 0, 2, uint64_t(g.minute), m);
    digits(h, 15, 0, 2, uint64_t(g.second), m);
    digits(h, 16, 0, 2, uint64_t(g.manufac_code), m);
    digits(h, 17, 0, 4, uint64_t(g.manufac_num), m);
    digits(h, 19, 0, 6, uint64_t(g.bytes_per_scan), m);
    vf_assert(vf_fbyte(h, 22) == base, m);
    digits(h, 23, 0, 1, uint64_t(g.polarity), m);
    vf_assert(uint64_t(vf_fbyte(h, 24)) << nib(h, 23, 1) == uint64_t(g.scans_per_block), m);
    digits(h, 25, 0, 1, uint64_t(g.record_type), m);
    if (longrec)
        vf_assert(nib(h, 25, 1) == 15 && vf_fbyte(h, 26) == 0xff, m);
    else
        digits(h, 25, 1, 3, uint64_t(g.record_length), m);
    digits(h, 27, 0, 2, 1, m);
    digits(h, 28, 0, 2, 1, m);
    vf_assert(be(h, 29, 3) == 0, m);
    m = "every field of general header 2 is stored at its place";
    vf_assert(be(h, 32, 3) == k.expanded_file_num, m);
    vf_assert(be(h, 35, 2) == 1, m);
    vf_assert(be(h, 37, 2) == k.extended_hdr_blocks, m);
    vf_assert(be(h, 39, 2) == k.external_hdr_blocks, m);
    vf_assert(vf_fbyte(h, 42) == 2 && vf_fbyte(h, 43) == k.segd_rev_minor, m);
    vf_assert(be(h, 44, 2) == k.gen_trailer_num_of_blocks, m);
    vf_assert(be(h, 46, 3) == k.ext_record_len, m);
    vf_assert(vf_fbyte(h, 50) == k.gen_hdr_block_num, m);
    vf_assert(be(h, 52, 2) == k.sequence_number, m);
    m = "unassigned bytes are zero";
    vf_assert(vf_fbyte(h, 41) == 0 && vf_fbyte(h, 49) == 0 && vf_fbyte(h, 51) == 0, m);
    for (unsigned i = 54; i < 64; ++i)
        vf_assert(vf_fbyte(h, i) == 0, m);
    vf_cover("wgh");
}
// further general header blocks.  cfg: number
extern "C" void h_wghn(int cfg)
{
    W w = basic(8058);
    w.gh.add_gen_hdr_blocks = 1 + cfg;
    std::vector<GHN> v;
    std::vector<uint64_t> ln, pt;
    for (int i = 0; i < cfg; ++i) {
        GHN g {};
        g.expanded_file_number = vf_u32("g1") & 0xffffff;
        uint64_t a = vf_u64("g2") & 0xffffffffff, b = vf_u64("g3") & 0xffffffffff;
        ln.push_back(a);
        pt.push_back(b);
        g.sou_line_num = double(sx(a, 5)) / 65536.0;
        g.sou_point_num = double(sx(b, 5)) / 65536.0;
        g.sou_point_index = vf_u8("g4");
        g.phase_control = vf_u8("g5");
        g.type_vibrator = vf_u8("g6");
        g.phase_angle = int16_t(vf_u16("g7"));
        g.gen_hdr_block_num = uint8_t(3 + i);
        g.sou_set_num = vf_u8("g8");
        v.push_back(g);
        w.add.push_back(std::make_shared<GHN>(g));
    }
    w.open();
    int64_t h = vf_fget("out.sgd");
    vf_assert(vf_fsize(h) == 96 + 32 * uint64_t(cfg), "a record starts with its headers");
    vf_assert(nib(h, 11, 0) == unsigned(1 + cfg), "the number of general header blocks is stored");
    char const* m = "every field of a further general header is stored at its place";
    for (unsigned i = 0; i < unsigned(cfg); ++i) {
        uint64_t at = 64 + 32 * i;
        vf_assert(be(h, at, 3) == v[i].expanded_file_number, m);
        vf_assert(be(h, at + 3, 5) == ln[i], m);
        vf_assert(be(h, at + 8, 5) == pt[i], m);
        vf_assert(vf_fbyte(h, at + 13) == v[i].sou_point_index && vf_fbyte(h, at + 14) == v[i].phase_control, m);
        vf_assert(vf_fbyte(h, at + 15) == v[i].type_vibrator && int16_t(be(h, at + 16, 2)) == v[i].phase_angle, m);
        vf_assert(vf_fbyte(h, at + 18) == v[i].gen_hdr_block_num && vf_fbyte(h, at + 19) == v[i].sou_set_num, m);
        for (unsigned j = 20; j < 32; ++j)
            vf_assert(vf_fbyte(h, at + j) == 0, "unassigned bytes are zero");
    }
    vf_cover("wghn");
}
// channel set headers.  cfg 0-9: subscans 2^cfg, from 10 on: one decimal field arbitrary
extern "C" void h_wchset(int cfg)
{
    unsigned sub = cfg < 10 ? unsigned(cfg) : 0;
    unsigned a = vf_u16("c1"), b = vf_u16("c2"), d = vf_u16("c3");
    double scale = double(d & 0x7fff) / 1024.0;
    if (d & 0x8000)
        scale = -scale;
    unsigned fl = vf_u8("c5"), ex = vf_u16("c4");
    auto f = [&](int c, int lim, int v) { return cfg == c ? unsigned(digitsof("v", lim)) : unsigned(v); };
    CSH x(int(f(10, 100, 1)), uint16_t(cfg == 0 ? 100 + (vf_u16("c0") & 0x7fff) : f(11, 100, 1)), uint8_t(f(12, 10, 9)), a * 2, b * 2, scale,
        f(13, 10000, 3), 1 << sub, uint8_t(f(14, 10, 5)), f(15, 10000, 1234), f(16, 10000, 18), f(17, 10000, 9), f(18, 10000, 6),
        f(19, 10000, 5678), f(20, 10000, 9012), f(21, 10000, 3456), uint16_t(ex), uint8_t(fl >> 4), uint8_t(fl & 15), vf_u8("c6"), vf_u8("c7"), vf_u8("c8"));
    W w = basic(8058, 1, 2);
    w.cs[0][1] = x;
    w.open();
    int64_t h = vf_fget("out.sgd");
    vf_assert(vf_fsize(h) == 128, "channel set headers follow the general headers");
    uint64_t at = 96;
    digits(h, 64, 0, 4, 101, "channel sets are stored in order");
    char const* m = "every field of a channel set is stored at its place";
    digits(h, at, 0, 2, uint64_t(x.scan_type_number), m);
    if (cfg == 0)
        vf_assert(vf_fbyte(h, at + 1) == 0xff, m);
    else
        digits(h, at + 1, 0, 2, x.channel_set_number, m);
    vf_assert(be(h, at + 2, 2) == a && be(h, at + 4, 2) == b, m);
    vf_assert(be(h, at + 6, 2) == (d == 0x8000 ? 0 : d), m);
    digits(h, at + 8, 0, 4, x.number_of_channels, m);
    digits(h, at + 10, 0, 1, x.channel_type, m);
    vf_assert(nib(h, at + 10, 1) == 0, "unassigned bytes are zero");
    digits(h, at + 11, 0, 1, sub, m);
    digits(h, at + 11, 1, 1, x.channel_gain, m);
    digits(h, at + 12, 0, 4, x.alias_filter_freq, m);
    digits(h, at + 14, 0, 4, x.alias_filter_slope, m);
    digits(h, at + 16, 0, 4, x.low_cut_filter_freq, m);
    digits(h, at + 18, 0, 4, x.low_cut_filter_slope, m);
    digits(h, at + 20, 0, 4, x.first_notch_filter, m);
    digits(h, at + 22, 0, 4, x.second_notch_filter, m);
    digits(h, at + 24, 0, 4, x.third_notch_filter, m);
    vf_assert(be(h, at + 26, 2) == ex && vf_fbyte(h, at + 28) == fl, m);
    vf_assert(vf_fbyte(h, at + 29) == x.vert_stack && vf_fbyte(h, at + 30) == x.streamer_no && vf_fbyte(h, at + 31) == x.array_forming, m);
    vf_cover("wchset");
}
// layout: scan types, channel sets, skew, extended and external headers.  cfg = scan types - 1 + 2 * (sets - 1) + 4 * skew + 12 * blocks + 48 * numbers in header 2
extern "C" void h_wlayout(int cfg)
{
    unsigned st = 1 + unsigned(cfg) % 2, n = 1 + unsigned(cfg) / 2 % 2, sk = unsigned(cfg) / 4 % 3, bl = unsigned(cfg) / 12 % 4;
    bool ff = cfg / 48;
    W w = basic(8058, st, n);
    w.gh.skew_blocks = int(sk);
    unsigned xd = bl, xl = (bl + 1) % 4;
    for (unsigned i = 0; i < st * n; ++i)
        w.cs[i / n][i % n].streamer_no = uint8_t(50 + i);
    int64_t a = vf_fnew("extd", xd * 32), b = vf_fnew("extl", xl * 32);
    for (unsigned i = 0; i < xd; ++i) {
        w.extd.emplace_back(32);
        vf_fcopy(a, 32 * i, w.extd.back().data(), 32);
    }
    for (unsigned i = 0; i < xl; ++i) {
        w.extl.emplace_back(32);
        vf_fcopy(b, 32 * i, w.extl.back().data(), 32);
    }
    w.gh.extended_hdr_blocks = ff ? 165 : int(xd);
    w.gh.external_hdr_blocks = ff ? 165 : int(xl);
    w.gh2.extended_hdr_blocks = xd;
    w.gh2.external_hdr_blocks = xl;
    if (ff)
        w.gh.channel_sets_per_scan_type = 165;
    w.open();
    int64_t h = vf_fget("out.sgd");
    if (ff)
        vf_assert(vf_fbyte(h, 28) == 0xff && vf_fbyte(h, 30) == 0xff && vf_fbyte(h, 31) == 0xff, "numbers given in general header 2 are marked");
    else {
        digits(h, 28, 0, 2, n, "numbers of headers are stored");
        digits(h, 30, 0, 2, xd, "numbers of headers are stored");
        digits(h, 31, 0, 2, xl, "numbers of headers are stored");
    }
    digits(h, 27, 0, 2, st, "numbers of headers are stored");
    digits(h, 29, 0, 2, sk, "numbers of headers are stored");
    vf_assert(be(h, 35, 2) == n && be(h, 37, 2) == xd && be(h, 39, 2) == xl, "numbers of headers are stored");
    uint64_t at = 64;
    for (unsigned s = 0; s < st; ++s) {
        for (unsigned i = 0; i < n; ++i, at += 32)
            vf_assert(vf_fbyte(h, at + 30) == 50 + s * n + i, "channel sets are stored scan type by scan type");
        vf_forall(32 * sk, [&](uint64_t i) { vf_assert(vf_fbyte(h, at + i) == 0, "skew blocks follow the channel sets of their scan type"); });
        at += 32 * sk;
    }
    vf_forall(32 * xd, [&](uint64_t i) { vf_assert(vf_fbyte(h, at + i) == vf_fbyte(a, i), "extended headers are stored as given"); });
    at += 32 * xd;
    vf_forall(32 * xl, [&](uint64_t i) { vf_assert(vf_fbyte(h, at + i) == vf_fbyte(b, i), "external headers are stored as given"); });
    at += 32 * xl;
    vf_assert(vf_fsize(h) == at, "nothing else is stored in front of the traces");
    vf_cover("wlayout");
}
// what is refused.  cfg 0: too few scan types, 1: too many, 2: too few channel sets, 3: too many, 4: unknown format,
// 5: too few extended headers, 6: too few external headers, 7: a short extended header, 8: a short external header
extern "C" void h_wrefuse(int cfg)
{
    W w = basic(8058, 2, 2);
    switch (cfg) {
    case 0: w.cs.pop_back(); break;
    case 1: w.cs.push_back(w.cs[0]); break;
    case 2: w.cs[1].pop_back(); break;
    case 3: w.cs[1].push_back(w.cs[0][0]); break;
    case 4: {
        int v = int(vf_u16("fmt"));
        for (int x : { 8015, 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080 })
            vf_assume(v != x);
        w.gh.format_code = v;
        break;
    }
    case 5:
    case 7:
        w.gh.extended_hdr_blocks = 2;
        w.extd.emplace_back(32);
        if (cfg == 7)
            w.extd.emplace_back(31);
        break;
    default:
        w.gh.external_hdr_blocks = 2;
        w.extl.emplace_back(32);
        if (cfg == 8)
            w.extl.emplace_back(31);
    }
    bool threw = false;
    try {
        w.open();
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw, "headers that contradict each other are refused");
    vf_cover("wrefuse");
}

// ---- traces
static uint64_t const start = 96; // where traces start behind one channel set
// the standard trace header and extension.  cfg 0: arbitrary binary fields, integer line and point, 1: fractional ones,
// 2: revision 1, 3: file number above 9999, set above 99, 4: nothing given, 5: FFID arbitrary, 6: CHAN arbitrary
extern "C" void h_wtrchdr(int cfg)
{
    W w = basic(8038, 1, 1, 1, cfg == 2 ? 1 : 2);
    if (cfg == 3) {
        w = basic(8038, 1, 120, 1);
    }
    UMap m;
    int64_t ffid = cfg == 5 ? digitsof("v", 10000) : cfg == 3 ? 10000 + int64_t(vf_u32("t0") & 0x7fffff) : 4711;
    int64_t chan = cfg == 6 ? digitsof("v", 10000) : 9876;
    uint64_t first = vf_u32("t1") & 0xffffff, skew = vf_u8("t2"), edit = vf_u8("t3"), tb = vf_u32("t4") & 0xffffff;
    uint64_t line = vf_u64("t5") & 0xffffffffff, point = vf_u64("t6") & 0xffffffffff, idx = vf_u8("t7"), sens = vf_u8("t8");
    bool frac = cfg == 1;
    if (!frac) {
        line &= ~0xffffull;
        point &= ~0xffffull;
    }
    if (cfg != 4) {
        m["FFID"] = Value { ffid };
        m["SCAN_TYPE_NUM"] = Value { int64_t(1) };
        m["CH_SET_NUM"] = Value { int64_t(cfg == 3 ? 117 : 1) };
        m["CHAN"] = Value { chan };
        m["FIRST_TIMING_WORD"] = Value { double(first) / 256.0 };
        m["SAMPLE_SKEW"] = Value { double(skew) / 256.0 };
        m["TRACE_EDIT"] = Value { int64_t(edit) };
        m["TIME_BREAK_WIN"] = Value { double(tb) / 256.0 };
        m["R_LINE"] = frac ? Value { double(line) / 65536.0 } : Value { int64_t(line >> 16) };
        m["R_POINT"] = frac ? Value { double(point) / 65536.0 } : Value { int64_t(point >> 16) };
        m["R_POINT_IDX"] = Value { int64_t(idx) };
        m["SENSOR_TYPE"] = Value { int64_t(sens) };
        m["SAMP_NUM"] = Value { int64_t(1) };
    } else
        ffid = 0, chan = 0, first = skew = edit = tb = line = point = idx = sens = 0;
    m["TR_HDR_EXT"] = Value { int64_t(2) };
    {
        auto o = w.open();
        Trace t(m, { 77.0 });
        o->write_trace(t);
    }
    int64_t h = vf_fget("out.sgd");
    uint64_t at = 64 + 32 * (cfg == 3 ? 120 : 1);
    vf_assert(vf_fsize(h) == at + 20 + 64 + 4, "a trace takes its header, the extensions and its samples");
    char const* s = "every field of the trace header is stored at its place";
    if (cfg == 3) {
        vf_assert(be(h, at, 2) == 0xffff && vf_fbyte(h, at + 3) == 0xff && be(h, at + 15, 2) == 117, s);
        vf_assert(be(h, at + 17, 3) == uint64_t(ffid), s);
    } else {
        digits(h, at, 0, 4, uint64_t(ffid), s);
        digits(h, at + 3, 0, 2, 1, s);
        vf_assert(be(h, at + 15, 2) <= 1, s);
        vf_assert(be(h, at + 17, 3) == uint64_t(ffid) || be(h, at + 17, 3) == 0, s);
    }
    digits(h, at + 2, 0, 2, 1, s);
    digits(h, at + 4, 0, 4, uint64_t(chan), s);
    vf_assert(be(h, at + 6, 3) == first, s);
    vf_assert(vf_fbyte(h, at + 9) == 2, s);
    vf_assert(vf_fbyte(h, at + 10) == skew && vf_fbyte(h, at + 11) == edit && be(h, at + 12, 3) == tb, s);
    s = "every field of the standard extension is stored at its place";
    uint64_t e = at + 20;
    vf_assert(be(h, e, 3) == line >> 16 && be(h, e + 3, 3) == point >> 16 && vf_fbyte(h, e + 6) == idx, s);
    vf_assert(be(h, e + 7, 3) == (cfg == 4 ? 0 : 1), s);
    if (cfg != 2)
        vf_assert(be(h, e + 10, 5) == line && be(h, e + 15, 5) == point && vf_fbyte(h, e + 20) == sens, s);
    for (unsigned i = cfg == 2 ? 10 : 21; i < 64; ++i)
        vf_assert(vf_fbyte(h, e + i) == 0, "unassigned bytes are zero");
    vf_assert(be(h, e + 64, 4) == 77, "samples follow the headers");
    vf_cover("wtrchdr");
}
static VT const vts[] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t,
    VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
static int const vw[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
static bool ibm_ok(uint64_t raw, double s)
{
    uint64_t b = vf_bits(s);
    uint32_t sg = uint32_t(b >> 63) << 31;
    int E = int(b >> 52 & 0x7ff);
    if (E == 0x7ff && (b & 0xfffffffffffff))
        return true; // not a number
    if (E < 1023 - 260)
        return (raw & 0x7fffffff) == 0; // below 16^-65
    if (E >= 1023 + 252)
        return raw == (sg | 0x7fffffff); // 16^63 and above
    // 16^(x-1) <= |s| < 16^x
    int x = (E - 1022 + 3 + 400) / 4 - 100;
    uint64_t f = ((b & 0xfffffffffffff) | 0x10000000000000) >> (1075 - E - 24 + 4 * x);
    return raw == (sg | uint32_t(x + 64) << 24 | uint32_t(f));
}
static bool single_ok(uint64_t raw, double s)
{
    float f = float(s);
    uint32_t b;
    memcpy(&b, &f, 4);
    return raw == b || (s != s && (raw & 0x7fffffff) > 0x7f800000);
}
static Value any(unsigned k, char const* n)
{
    if (k >= 10)
        return Value { vf_f64(n) };
    uint64_t v = vf_u64(n);
    int w = vw[k];
    return Value { int64_t(k % 2 && w < 8 ? v & ((uint64_t(1) << 8 * w) - 1) : uint64_t(sx(v, w))) };
}
static bool stored(uint64_t raw, Value const& v, unsigned k)
{
    if (k < 10)
        return raw == (vw[k] == 8 ? uint64_t(std::get<int64_t>(v)) : uint64_t(std::get<int64_t>(v)) & ((uint64_t(1) << 8 * vw[k]) - 1));
    double d = std::get<double>(v);
    return k == 10 ? ibm_ok(raw, d) : k == 11 ? single_ok(raw, d) : raw == vf_bits(d);
}
// mapped fields of extensions; maps for two of three extensions.  cfg: type
extern "C" void h_wext(int cfg)
{
    unsigned k = unsigned(cfg);
    W w = basic(8038);
    uint32_t o = vf_u32("n_off");
    vf_assume(o < 28 && o + uint32_t(vw[k]) <= 28);
    w.maps = Maps { Map { { o, { "ONE", vts[k] } }, { 28, { "TWO", VT::int32_t } } }, Map { { 5, { "THREE", vts[k] } } } };
    UMap m;
    m["ONE"] = any(k, "v1");
    m["TWO"] = any(6, "v2");
    m["THREE"] = any(k, "v3");
    m["FOUR"] = any(k, "v4");
    m["TR_HDR_EXT"] = Value { int64_t(3) };
    m["CH_SET_NUM"] = Value { int64_t(1) };
    m["SCAN_TYPE_NUM"] = Value { int64_t(1) };
    {
        auto x = w.open();
        Trace t(m, { 7.0 });
        x->write_trace(t);
    }
    int64_t h = vf_fget("out.sgd");
    uint64_t e = start + 20;
    unsigned n = unsigned(vw[k]);
    vf_assert(vf_fsize(h) == e + 96 + 4, "a trace takes its header, the extensions and its samples");
    vf_assert(stored(be(h, e + o, int(n)), m["ONE"], k), "a mapped field is stored at its place");
    vf_assert(stored(be(h, e + 28, 4), m["TWO"], 6), "a mapped field is stored at its place");
    vf_assert(stored(be(h, e + 37, int(n)), m["THREE"], k), "a mapped field is stored at its place");
    vf_forall(96, [&](uint64_t i) {
        if (!(i >= o && i < o + n) && !(i >= 28 && i < 32) && !(i >= 37 && i < 37 + n))
            vf_assert(vf_fbyte(h, e + i) == 0, "bytes without a mapped field are zero");
    });
    vf_assert(be(h, e + 96, 4) == 7, "samples follow the headers");
    vf_cover("wext");
}
// a mapped field the trace does not have; a trace of a channel set that is not there.  cfg 0; 1: set, 2: scan type, 3: set 0
extern "C" void h_wlost(int cfg)
{
    W w = basic(8038);
    UMap m;
    m["TR_HDR_EXT"] = Value { int64_t(1) };
    int64_t st = 1, cs = 1;
    if (cfg == 0)
        w.maps = Maps { Map { { 5, { "THREE", VT::int16_t } } } };
    else if (cfg == 1) {
        cs = vf_u8("cs");
        vf_assume(cs > 1);
    } else if (cfg == 2) {
        st = vf_u8("st");
        vf_assume(st > 1 && st < 100);
    } else
        cs = 0;
    m["CH_SET_NUM"] = Value { cs };
    m["SCAN_TYPE_NUM"] = Value { st };
    bool threw = false;
    try {
        auto x = w.open();
        Trace t(m, { 7.0 });
        x->write_trace(t);
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw, "a trace that cannot be written is refused");
    vf_cover("wlost");
}
// traces in order, as many as declared.  cfg: lengths 0: growing, 1: shrinking, 2: equal
extern "C" void h_worder(int cfg)
{
    W w = basic(8038, 1, 2, 1);
    w.cs[0][0].number_of_channels = 2;
    uint64_t n[3] = { vf_u16("n_s"), vf_u16("n_s"), vf_u16("n_s") };
    if (cfg == 0)
        vf_assume(0 < n[0] && n[0] < n[1] && n[1] < n[2]);
    else if (cfg == 1)
        vf_assume(n[0] > n[1] && n[1] > n[2] && n[2] > 0);
    else {
        n[1] = n[2] = n[0];
        vf_assume(n[0] > 0);
    }
    static char const* const sn[3] = { "s0", "s1", "s2" };
    int64_t sh[3];
    std::vector<double> s[3];
    for (int i = 0; i < 3; ++i) {
        sh[i] = vf_fnew(sn[i], n[i] * 4);
        s[i].resize(n[i]);
        for (uint64_t j = 0; j < n[i]; ++j)
            s[i][j] = double(int32_t(vf_fle(sh[i], 4 * j, 4)));
    }
    bool threw = false;
    {
        auto x = w.open();
        for (int i = 0; i < 4; ++i) {
            UMap m;
            m["TR_HDR_EXT"] = Value { int64_t(i == 1 ? 0 : 1) };
            m["CH_SET_NUM"] = Value { int64_t(i < 2 ? 1 : 2) };
            m["SCAN_TYPE_NUM"] = Value { int64_t(1) };
            m["SAMP_NUM"] = Value { int64_t(n[i % 3]) };
            m["TRACE_EDIT"] = Value { int64_t(40 + i) };
            Trace t(m, s[i % 3]);
            if (i < 3)
                x->write_trace(t);
            else
                try {
                    x->write_trace(t);
                } catch (Exception const&) {
                    threw = true;
                }
        }
    }
    vf_assert(threw, "more traces than channels are refused");
    int64_t h = vf_fget("out.sgd");
    uint64_t at = 128;
    for (unsigned i = 0; i < 3; ++i) {
        vf_assert(vf_fbyte(h, at + 11) == 40 + i, "traces are stored in the order of writing");
        unsigned ext = i == 1 ? 0 : 1;
        vf_assert(vf_fbyte(h, at + 9) == ext, "traces are stored in the order of writing");
        if (ext)
            vf_assert(be(h, at + 27, 3) == n[i], "the number of samples is stored");
        at += 20 + 32 * ext;
        vf_forall(n[i], [&](uint64_t j) { vf_assert(be(h, at + 4 * j, 4) == vf_fle(sh[i], 4 * j, 4), "every trace has its own samples"); });
        at += 4 * n[i];
    }
    vf_assert(vf_fsize(h) == at, "nothing but the traces is stored");
    vf_cover("worder");
}
// ---- samples of every format: what a value is stored as.  cfg = format + 14 * (0: unscaled, 1: doubled by the channel set, 2: halved)
static short const fmts[14] = { 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080, 8015 };
static unsigned char const bytes[14] = { 1, 2, 3, 4, 1, 2, 4, 4, 8, 3, 4, 4, 8, 0 };
// v is what the bytes encode, or, for values in between, the next one towards zero: base^exp * frac / 2^bits
static bool gain_ok(uint64_t raw, double v, int base, int eb, int fb)
{
    double a = v < 0 ? -v : v;
    uint64_t f = raw & ((1u << fb) - 1), e = raw >> fb & ((1u << eb) - 1), sg = raw >> (eb + fb);
    double unit = 1.0 / double(1u << fb), top = 1;
    for (uint64_t i = 0; i < (1u << eb) - 1u; ++i) {
        if (i < e)
            unit *= base;
        top *= base;
    }
    if (sg != (v < 0 ? 1u : 0u) && f)
        return false;
    if (a >= top)
        return f == (1u << fb) - 1 && e == (1u << eb) - 1;
    double d = double(f) * unit;
    return d <= a && a < d + unit && (e == 0 || a * base >= double(1u << fb) * unit);
}
extern "C" void h_wsamples(int cfg)
{
    unsigned f = unsigned(cfg) % 14, how = unsigned(cfg) / 14;
    W w = basic(fmts[f]);
    double scale = how == 0 ? 1.0 : how == 1 ? 2.0 : 0.5;
    w.cs[0][0].descale_multiplier = how == 0 ? 0 : how == 1 ? 1 : -1;
    uint64_t n = f == 13 ? 4 : vf_u16("n_s"); // 8015 bounded: one group
    int64_t sh = vf_fnew("smp", n * 8);
    std::vector<double> s(n);
    bool whole = f == 2 || f == 3 || f == 9 || f == 10;
    int z = bytes[f];
    if (whole) {
        for (uint64_t i = 0; i < n; ++i)
            s[i] = double(int64_t(vf_fle(sh, i * 8, 8)) >> (56 - 8 * z)) * 0.00390625;
    } else if (n)
        vf_fcopy(sh, 0, reinterpret_cast<char*>(s.data()), n * 8);
    {
        auto x = w.open();
        UMap m;
        m["CH_SET_NUM"] = Value { int64_t(1) };
        m["SCAN_TYPE_NUM"] = Value { int64_t(1) };
        std::vector<double> g(n);
        for (uint64_t i = 0; i < n; ++i)
            g[i] = s[i] * scale;
        Trace t(m, g);
        x->write_trace(t);
    }
    int64_t h = vf_fget("out.sgd");
    uint64_t at = start + 20;
    vf_assert(vf_fsize(h) == at + (f == 13 ? n / 4 * 10 : n * uint64_t(z)), "samples take the space of their format");
    char const* lab = "every sample is stored as its encoding";
    vf_forall(n, [&](uint64_t i) {
        double v = how ? s[i] * scale / scale : s[i];
        uint64_t raw = f == 13 ? 0 : fmts[f] < 9000 ? be(h, at + i * uint64_t(z), z) : vf_fle(h, at + i * uint64_t(z), z);
        switch (fmts[f]) {
        case 8022: vf_assert(v != v || gain_ok(raw, v, 4, 3, 4), lab); break;
        case 8024: vf_assert(v != v || gain_ok(raw, v, 4, 3, 12), lab); break;
        case 8042: vf_assert(v != v || gain_ok(raw, v, 16, 2, 5), lab); break;
        case 8044: vf_assert(v != v || gain_ok(raw, v, 16, 2, 13), lab); break;
        case 8048: vf_assert(ibm_ok(raw, v), lab); break;
        case 8058:
        case 9058: vf_assert(single_ok(raw, v), lab); break;
        case 8080:
        case 9080: vf_assert(raw == vf_bits(v) || v != v, lab); break;
        case 8015: {
            uint64_t g = at + i / 4 * 10;
            unsigned e = nib(h, g, unsigned(i % 4));
            int64_t fr = sx(be(h, g + 2 + 2 * (i % 4), 2), 2);
            double a = v < 0 ? -v : v, unit = 1.0 / 32768.0;
            for (unsigned q = 0; q < 15; ++q)
                if (q < e)
                    unit *= 2;
            double d = double(fr) * unit, ad = d < 0 ? -d : d;
            if (v != v)
                break;
            if (a >= 32768.0)
                vf_assert(e == 15 && (v > 0 ? fr == 32767 : fr <= -32767), lab);
            else
                vf_assert((fr == 0 || (fr < 0) == (v < 0)) && ad <= a && a < ad + unit && (e == 0 || a * 2 >= 32768.0 * unit), lab);
            break;
        }
        default: {
            uint64_t t = uint64_t(int64_t(v));
            vf_assert(raw == (t & ((uint64_t(1) << (8 * z)) - 1)), lab);
        }
        }
    });
    vf_cover("wsamples");
}

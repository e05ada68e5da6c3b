// reading SEG-D: trace headers, trace header extensions, samples, order of traces and records
#include "segd.hpp"
using namespace sd;
using Val = Trace::Header::Value;

// revision, additional blocks
static Lay kind(unsigned k)
{
    static unsigned char const t[5][2] = { { 0, 0 }, { 0, 1 }, { 1, 1 }, { 2, 1 }, { 3, 2 } };
    Lay l;
    l.rev = t[k][0];
    l.add = t[k][1];
    return l;
}
static void channels(Lay const& l, unsigned n, unsigned c = 0, uint64_t rec = 0)
{
    uint64_t at = rec + l.chset(0, c);
    if (l.chsize == 32)
        vf_fput_be(l.h, at + 8, n / 1000 << 12 | n / 100 % 10 << 8 | n / 10 % 10 << 4 | n % 10, 2);
    else
        vf_fput_be(l.h, at + 20, n, 3);
}
static void noscale(Lay const& l, unsigned c = 0, uint64_t rec = 0)
{
    if (l.chsize == 32)
        vf_fput_be(l.h, rec + l.chset(0, c) + 6, 0, 2);
    else
        vf_fput_be(l.h, rec + l.chset(0, c) + 16, 0, 4);
}
static void is(Trace::Header const& x, char const* key, int64_t v)
{
    auto o = x.get(key);
    vf_assert(bool(o), "every standard field of a trace header is reported");
    vf_assert(std::holds_alternative<int64_t>(*o) && std::get<int64_t>(*o) == v, "standard fields of a trace header are reported as stored");
}
static void isd(Trace::Header const& x, char const* key, double v)
{
    auto o = x.get(key);
    vf_assert(bool(o), "every standard field of a trace header is reported");
    vf_assert(std::holds_alternative<double>(*o) && std::get<double>(*o) == v, "standard fields of a trace header are reported as stored");
}
static uint64_t number(int64_t h, uint64_t at, unsigned n, unsigned ext, unsigned en)
{
    uint64_t e = be(h, at + ext, int(en));
    return e ? e : n;
}
static void standard(Trace::Header const& x, int64_t h, uint64_t at, bool chan = true)
{
    is(x, "FFID", int64_t(number(h, at, unsigned(bcd(h, at, 0, 4)), 17, 3)));
    is(x, "SCAN_TYPE_NUM", int64_t(bcd(h, at + 2, 0, 2)));
    is(x, "CH_SET_NUM", int64_t(number(h, at, unsigned(bcd(h, at + 3, 0, 2)), 15, 2)));
    if (chan)
        is(x, "CHAN", int64_t(bcd(h, at + 4, 0, 4)));
    isd(x, "FIRST_TIMING_WORD", double(be(h, at + 6, 3)) / 256.0);
    is(x, "TR_HDR_EXT", vf_fbyte(h, at + 9));
    isd(x, "SAMPLE_SKEW", double(vf_fbyte(h, at + 10)) / 256.0);
    is(x, "TRACE_EDIT", vf_fbyte(h, at + 11));
    isd(x, "TIME_BREAK_WIN", double(be(h, at + 12, 3)) / 256.0);
}
// the channel set of a trace: scan type 1, channel set c
static void owner(int64_t h, uint64_t at, unsigned c, bool ext)
{
    vf_fput(h, at + 2, 1);
    vf_fput(h, at + 3, ext ? 0xff : uint8_t(c));
    vf_fput_be(h, at + 15, ext ? c : 0, 2);
}
// standard fields, without and with the standard extension; cfg = kind + 5 * extension blocks + 20 * extended numbers
extern "C" void h_std(int cfg)
{
    Lay l = kind(unsigned(cfg) % 5);
    unsigned ext = unsigned(cfg) / 5 % 4;
    bool en = cfg / 20;
    unsigned ns = ext ? 1 : l.rev < 3 ? 1 : 2;
    plan(l);
    make(l, 20 + 32 * ext + 4 * ns);
    int64_t h = l.h;
    channels(l, 1);
    noscale(l);
    if (l.chsize == 32)
        vf_fput(h, l.chset(0, 0) + 11, 0); // one subscan: one sample
    else
        vf_fput_be(h, l.chset(0, 0) + 12, 2, 4);
    if (l.add)
        vf_fput_be(h, 44, 0, l.rev > 2 ? 4 : 2);
    uint64_t at = l.data, e = at + 20;
    owner(h, at, 1, en);
    vf_fput(h, at + 9, uint8_t(ext));
    if (ext)
        vf_fput_be(h, l.rev < 3 ? e + 7 : e + 24, ns, l.rev < 3 ? 3 : 4);
    ISEGD s(vf_path("in.sgd"));
    vf_assert(s.has_trace(), "a record with channels has traces");
    Trace t = s.read_trace();
    Trace::Header const& x = t.header();
    bool many = ext && l.rev > 2 && bcd(h, at + 4, 0, 4) == 16665;
    standard(x, h, at, !many);
    if (many)
        is(x, "CHAN", int64_t(be(h, e + 21, 3)));
    if (ext) {
        bool dl = l.rev > 1 && be(h, e + 10, 5), dp = l.rev > 1 && be(h, e + 15, 5);
        if (dl)
            isd(x, "R_LINE", double(be(h, e + 10, 5)) / 65536.0);
        else
            is(x, "R_LINE", int64_t(be(h, e, 3)));
        if (dp)
            isd(x, "R_POINT", double(be(h, e + 15, 5)) / 65536.0);
        else
            is(x, "R_POINT", int64_t(be(h, e + 3, 3)));
        is(x, "R_POINT_IDX", vf_fbyte(h, e + 6));
        if (l.rev > 1)
            is(x, "SENSOR_TYPE", vf_fbyte(h, e + 20));
        is(x, "SAMP_NUM", ns);
        if (l.rev > 2) {
            is(x, "RESHOOT_IDX", vf_fbyte(h, e + 7));
            is(x, "GROUP_IDX", vf_fbyte(h, e + 8));
            is(x, "DEPTH_IDX", vf_fbyte(h, e + 9));
            is(x, "SENSOR_MOVING", vf_fbyte(h, e + 28));
            is(x, "PHYSICAL_UNIT", vf_fbyte(h, e + 30));
        }
    }
    vf_assert(x.keys().size() == 9u + (ext ? l.rev < 2 ? 4u : l.rev < 3 ? 5u : 10u : 0u), "no field is made up");
    vf_assert(t.samples().size() == ns, "a trace has the declared number of samples");
    vf_assert(!s.has_trace() && !s.has_record(), "the last trace ends the file");
    vf_cover("std");
}
static VT const types[13] = { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t,
    VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
static unsigned char const width[13] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static void mapped(Trace::Header const& x, char const* key, int64_t h, uint64_t at, unsigned k)
{
    auto o = x.get(key);
    char const* m = "a mapped field is reported as stored";
    vf_assert(bool(o), "every mapped field is reported");
    uint64_t v = be(h, at, width[k]);
    if (k < 10) {
        vf_assert(std::holds_alternative<int64_t>(*o), m);
        vf_assert(std::get<int64_t>(*o) == (k % 2 ? int64_t(v) : sx(v, width[k])), m);
    } else {
        vf_assert(std::holds_alternative<double>(*o), m);
        double want;
        if (k == 10)
            want = double(v & 0xffffff) / 16777216.0 * pow(16, int(v >> 24 & 127) - 64) * (v >> 31 ? -1 : 1);
        else if (k == 11) {
            uint32_t b = uint32_t(v);
            float f;
            memcpy(&f, &b, 4);
            want = f;
        } else
            memcpy(&want, &v, 8);
        vf_assert(same(std::get<double>(*o), want), m);
    }
}
// mapped extension fields; cfg = type + 13 * block of the field (of two) + 26 * (two maps for three blocks)
extern "C" void h_ext(int cfg)
{
    unsigned k = unsigned(cfg) % 13, blk = unsigned(cfg) / 13 % 2;
    unsigned ext = 2 + unsigned(cfg) / 26;
    Lay l = kind(3);
    make(l, 20 + 32 * ext + 4);
    int64_t h = l.h;
    channels(l, 1);
    vf_fput(h, l.chset(0, 0) + 11, 0);
    vf_fput_be(h, 44, 0, 2);
    uint64_t at = l.data, e = at + 20 + 32 * blk;
    owner(h, at, 1, false);
    vf_fput(h, at + 9, uint8_t(ext));
    uint32_t off = vf_u8("off"), off2 = 28;
    vf_assume(off + width[k] <= 28);
    Maps m(2);
    m[blk][off] = { "K", types[k] };
    m[1 - blk][off2] = { "OTHER", VT::int16_t };
    ISEGD s(vf_path("in.sgd"), m);
    Trace t = s.read_trace();
    Trace::Header const& x = t.header();
    standard(x, h, at);
    mapped(x, "K", h, e + off, k);
    mapped(x, "OTHER", h, at + 20 + 32 * (1 - blk) + off2, 2);
    vf_assert(x.keys().size() == 11, "only mapped fields are reported");
    vf_assert(t.samples().size() == 1, "a trace has the declared number of samples");
    vf_assert(!s.has_trace() && !s.has_record(), "the last trace ends the file");
    vf_cover("ext");
}
// extensions without a field of interest: the map of an extension may be empty;
// cfg = extensions of the trace (0-3) + 4 * which of the maps name a field (bits)
extern "C" void h_emptymap(int cfg)
{
    unsigned ext = unsigned(cfg) % 4, bits = unsigned(cfg) / 4;
    Lay l = kind(3);
    l.fmt = 8038;
    make(l, 20 + 32 * ext + 4);
    int64_t h = l.h;
    channels(l, 1);
    noscale(l);
    vf_fput(h, l.chset(0, 0) + 11, 0);
    vf_fput_be(h, 44, 0, 2);
    uint64_t at = l.data;
    owner(h, at, 1, false);
    vf_fput(h, at + 9, uint8_t(ext));
    static char const* const names[] = { "A", "B", "C" };
    Maps m(3);
    unsigned n = 9;
    for (unsigned i = 0; i < 3; ++i)
        if (bits >> i & 1)
            m[i][7] = { names[i], VT::int16_t };
    ISEGD s(vf_path("in.sgd"), m);
    Trace t = s.read_trace();
    Trace::Header const& x = t.header();
    standard(x, h, at);
    for (unsigned i = 0; i < ext; ++i)
        if (bits >> i & 1) {
            mapped(x, names[i], h, at + 20 + 32 * i + 7, 2);
            ++n;
        }
    vf_assert(x.keys().size() == n, "only mapped fields are reported");
    vf_assert(t.samples().size() == 1, "a trace has the declared number of samples");
    vf_assert(t.samples()[0] == double(sx(be(h, at + 20 + 32 * ext, 4), 4)), "samples are those behind the header");
    vf_assert(!s.has_trace() && !s.has_record(), "the last trace ends the file");
    vf_cover("emptymap");
}
// the number of samples comes from a mapped field; cfg 0: revision 2, 1: revision 3
extern "C" void h_sampmap(int cfg)
{
    Lay l = kind(cfg ? 4 : 3);
    l.fmt = 8038;
    uint32_t n = vf_u16("n_s");
    make(l, 20 + 32 + 4ull * n);
    int64_t h = l.h;
    channels(l, 1);
    noscale(l);
    vf_fput_be(h, 44, 0, cfg ? 4 : 2);
    uint64_t at = l.data, e = at + 20;
    owner(h, at, 1, false);
    vf_fput(h, at + 9, 1);
    vf_fput_be(h, e + 5, n, 4);
    ISEGD s(vf_path("in.sgd"), Maps { Map { { 5, { "SAMP_NUM", VT::uint32_t } } } });
    Trace t = s.read_trace();
    vf_assert(t.samples().size() == n, "a trace has the declared number of samples");
    vf_forall(n, [&](uint64_t i) { vf_assert(t.samples()[i] == double(sx(be(h, e + 32 + 4 * i, 4), 4)), "samples are those behind the header"); });
    vf_assert(!s.has_trace() && !s.has_record(), "the last trace ends the file");
    vf_cover("sampmap");
}
// a trace whose channel set is not in the file; cfg 0: channel set, 1: extended channel set, 2: scan type, 3: zero channel set, 4: zero scan type
extern "C" void h_lost(int cfg)
{
    Lay l = kind(3);
    l.cs = 2;
    make(l, 20 + 32 + 4);
    int64_t h = l.h;
    channels(l, 1);
    uint64_t at = l.data;
    owner(h, at, 1, cfg == 1);
    if (cfg == 0 || cfg == 3) {
        uint8_t c = vf_u8("c");
        vf_assume(cfg == 3 ? c == 0 : c != 0 && (c >> 4) * 10 + (c & 15) > 2);
        vf_fput(h, at + 3, c);
    } else if (cfg == 1) {
        uint16_t c = vf_u16("c");
        vf_assume(c > 2);
        vf_fput_be(h, at + 15, c, 2);
    } else {
        uint8_t c = vf_u8("c");
        vf_assume(cfg == 4 ? c == 0 : c > 1);
        vf_fput(h, at + 2, c);
    }
    vf_fput(h, at + 9, 1);
    vf_fput_be(h, at + 27, 1, 3);
    ISEGD s(vf_path("in.sgd"));
    bool threw = false;
    try {
        s.read_trace();
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw, "a trace without a channel set is refused");
    vf_cover("lost");
}
// several traces of several channel sets: one after the other; cfg = kind + 5 * mix of extension blocks
extern "C" void h_order(int cfg)
{
    Lay l = kind(unsigned(cfg) % 5);
    l.cs = 2;
    l.fmt = 8038;
    unsigned mix = unsigned(cfg) / 5;
    unsigned ext[3] = { 1 + mix % 2, 1, 1 + mix / 2 };
    plan(l);
    uint32_t n[3] = { vf_u16("n_s"), vf_u16("n_s"), vf_u16("n_s") };
    switch (mix) { // together: every order of lengths of neighbours
    case 0: vf_assume(0 < n[0] && n[0] < n[1] && n[1] < n[2]); break;
    case 1: vf_assume(n[0] > n[1] && n[1] > n[2] && n[2] > 0); break;
    case 2: vf_assume(n[0] == n[1] && n[1] > 0 && n[2] == 0); break;
    default: vf_assume(n[0] == 0 && n[1] > 0 && n[2] < n[1] && n[2] > 0);
    }
    uint64_t at[4];
    at[0] = l.data;
    for (int i = 0; i < 3; ++i)
        at[i + 1] = at[i] + 20 + 32 * ext[i] + 4ull * n[i];
    make(l, at[3] - l.data);
    int64_t h = l.h;
    channels(l, 2, 0);
    channels(l, 1, 1);
    noscale(l, 0);
    noscale(l, 1);
    if (l.add)
        vf_fput_be(h, 44, 0, l.rev > 2 ? 4 : 2);
    for (unsigned i = 0; i < 3; ++i) {
        owner(h, at[i], i == 2 ? 2 : 1, l.add && i == 1);
        vf_fput(h, at[i] + 9, uint8_t(ext[i]));
        vf_fput_be(h, at[i] + 20 + (l.rev < 3 ? 7 : 24), n[i], l.rev < 3 ? 3 : 4);
    }
    ISEGD s(vf_path("in.sgd"));
    for (unsigned i = 0; i < 3; ++i) {
        vf_assert(s.has_trace() && s.has_record(), "every trace of the record is delivered");
        Trace t = s.read_trace();
        is(t.header(), "CH_SET_NUM", i == 2 ? 2 : 1);
        is(t.header(), "R_POINT_IDX", vf_fbyte(h, at[i] + 26));
        isd(t.header(), "TIME_BREAK_WIN", double(be(h, at[i] + 12, 3)) / 256.0);
        vf_assert(t.samples().size() == n[i], "a trace has the declared number of samples");
        vf_forall(n[i], [&](uint64_t j) {
            vf_assert(t.samples()[j] == double(sx(be(h, at[i] + 20 + 32 * ext[i] + 4 * j, 4), 4)), "traces have their own samples");
        });
    }
    vf_assert(!s.has_trace() && !s.has_record(), "no trace is made up");
    vf_cover("order");
}
// two records, the first with a trailer; cfg = kind of the first + 5 * kind of the second
extern "C" void h_records(int cfg)
{
    Lay a = kind(unsigned(cfg) % 5), b = kind(unsigned(cfg) / 5);
    a.fmt = 8038;
    b.fmt = 8036;
    plan(a);
    plan(b);
    uint32_t n = vf_u16("n_s"), m = vf_u16("n_s");
    vf_assume(cfg % 2 ? n > m && m > 0 : m > n + n && n > 0); // bytes of samples: 4 n and 3 m; other lengths: h_order
    uint32_t tr = a.add ? vf_u16("n_tr") : 0;
    uint64_t t1 = a.data, r2 = t1 + 52 + 4ull * n + 32ull * tr, t2 = r2 + b.data;
    make(a, r2 - a.data + b.data + 52 + 3ull * m);
    int64_t h = b.h = a.h;
    steer(b, r2);
    if (a.add)
        vf_fput_be(h, 44, tr, a.rev > 2 ? 4 : 2);
    if (b.add)
        vf_fput_be(h, r2 + 44, 0, b.rev > 2 ? 4 : 2);
    channels(a, 1);
    channels(b, 1, 0, r2);
    noscale(a);
    noscale(b, 0, r2);
    owner(h, t1, 1, false);
    owner(h, t2, 1, false);
    vf_fput(h, t1 + 9, 1);
    vf_fput(h, t2 + 9, 1);
    vf_fput_be(h, t1 + 20 + (a.rev < 3 ? 7 : 24), n, a.rev < 3 ? 3 : 4);
    vf_fput_be(h, t2 + 20 + (b.rev < 3 ? 7 : 24), m, b.rev < 3 ? 3 : 4);
    ISEGD s(vf_path("in.sgd"));
    vf_assert(uint64_t(s.general_header().file_number) == bcd(h, 0, 0, 4), "headers are those of the current record");
    vf_assert(s.has_trace() && s.has_record(), "every record is delivered");
    Trace x = s.read_trace();
    is(x.header(), "R_POINT_IDX", vf_fbyte(h, t1 + 26));
    vf_assert(x.samples().size() == n, "a trace has the declared number of samples");
    vf_forall(n, [&](uint64_t j) { vf_assert(x.samples()[j] == double(sx(be(h, t1 + 52 + 4 * j, 4), 4)), "traces have their own samples"); });
    vf_assert(s.has_trace() && s.has_record(), "every record is delivered");
    vf_assert(uint64_t(s.general_header().file_number) == bcd(h, r2, 0, 4), "headers are those of the current record");
    auto g = s.general_header2();
    vf_assert(bool(g) == (b.add != 0), "headers are those of the current record");
    if (g)
        vf_assert(g->segd_rev_major == b.rev && g->expanded_file_num == be(h, r2 + 32, 3), "headers are those of the current record");
    vf_assert(bool(s.general_header3()) == (b.rev > 2), "headers are those of the current record");
    vf_assert(s.channel_set_headers().size() == 1 && s.channel_set_headers()[0].size() == 1, "channel sets are those of the current record");
    vf_assert(s.channel_set_headers()[0][0].streamer_no == vf_fbyte(h, r2 + b.ch + 30), "channel sets are those of the current record");
    Trace y = s.read_trace();
    standard(y.header(), h, t2, b.rev < 3 || bcd(h, t2 + 4, 0, 4) != 16665);
    is(y.header(), "R_POINT_IDX", vf_fbyte(h, t2 + 26));
    vf_assert(y.samples().size() == m, "a trace has the declared number of samples");
    vf_forall(m, [&](uint64_t j) { vf_assert(y.samples()[j] == double(sx(be(h, t2 + 52 + 3 * j, 3), 3)), "traces have their own samples"); });
    vf_assert(!s.has_trace() && !s.has_record(), "no trace is made up");
    vf_cover("records");
}
// every sample format; cfg = format + 14 * (0: revision 2, unscaled, 1: revision 2, scaled by the channel set, 2: revision 3, unscaled,
// 3: revision 2, doubled by the channel set, 4: revision 2, halved by the channel set)
static short const fmts[14] = { 8022, 8024, 8036, 8038, 8042, 8044, 8048, 8058, 8080, 9036, 9038, 9058, 9080, 8015 };
static unsigned char const bytes[14] = { 1, 2, 3, 4, 1, 2, 4, 4, 8, 3, 4, 4, 8, 0 };
static double ieee(uint64_t v, unsigned n)
{
    if (n == 4) {
        uint32_t b = uint32_t(v);
        float f;
        memcpy(&f, &b, 4);
        return double(f);
    }
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static double sample(int64_t h, uint64_t at, unsigned f, uint64_t i)
{
    unsigned n = bytes[f];
    if (f == 13) { // groups of four: two bytes with four exponents, then four fractions
        uint64_t g = at + i / 4 * 10;
        unsigned e = nib(h, g, unsigned(i % 4));
        return double(sx(be(h, g + 2 + 2 * (i % 4), 2), 2)) * pow(2, int(e) - 15);
    }
    uint64_t v = fmts[f] < 9000 ? be(h, at + n * i, int(n)) : vf_fle(h, at + n * i, int(n));
    double sign = v >> (8 * n - 1) ? -1.0 : 1.0;
    switch (fmts[f]) {
    case 8022:
        return sign * double(v & 15) / 16.0 * pow(4, int(v >> 4 & 7));
    case 8024:
        return sign * double(v & 0xfff) / 4096.0 * pow(4, int(v >> 12 & 7));
    case 8042:
        return sign * double(v & 31) / 32.0 * pow(16, int(v >> 5 & 3));
    case 8044:
        return sign * double(v & 0x1fff) / 8192.0 * pow(16, int(v >> 13 & 3));
    case 8048:
        return sign * double(v & 0xffffff) / 16777216.0 * pow(16, int(v >> 24 & 127) - 64);
    case 8036:
    case 8038:
    case 9036:
    case 9038:
        return double(sx(v, int(n)));
    default:
        return ieee(v, n);
    }
}
extern "C" void h_samples(int cfg)
{
    unsigned f = unsigned(cfg) % 14, how = unsigned(cfg) / 14;
    Lay l = kind(how == 2 ? 4 : 3);
    l.fmt = fmts[f];
    uint64_t n = uint64_t(vf_u8("n_hi")) << 16 | vf_u16("n_s");
    uint64_t size = bytes[f] * n;
    if (f == 13) {
        vf_assume(n % 4 == 0 && n <= 8); // bounded: two groups
        size = n / 4 * 10;
    }
    make(l, 20 + 32 + size);
    int64_t h = l.h;
    channels(l, 1);
    if (how >= 3)
        vf_fput_be(h, l.chset(0, 0) + 6, how == 3 ? 0x0400 : 0x8400, 2);
    else if (how != 1)
        noscale(l);
    vf_fput_be(h, 44, 0, l.rev > 2 ? 4 : 2);
    uint64_t at = l.data, d = at + 52;
    owner(h, at, 1, false);
    vf_fput(h, at + 9, 1);
    vf_fput_be(h, at + 20 + (l.rev < 3 ? 7 : 24), n, l.rev < 3 ? 3 : 4);
    ISEGD s(vf_path("in.sgd"));
    Trace t = s.read_trace();
    vf_assert(t.samples().size() == n, "a trace has the declared number of samples");
    double scale = how == 3 ? 2.0 : how == 4 ? 0.5 : 1.0;
    if (how == 1) {
        int64_t mp = int64_t(be(h, l.chset(0, 0) + 6, 2));
        scale = pow(2, double(mp & 0x8000 ? -(mp & 0x7fff) : mp) / 1024.0);
    }
    vf_forall(n, [&](uint64_t i) { vf_assert(same(t.samples()[i], sample(h, d, f, i) * scale), "samples are the values their bytes encode"); });
    vf_assert(!s.has_trace() && !s.has_record(), "the last trace ends the file");
    vf_cover("samples");
}
// what format codes are refused
extern "C" void h_format(int)
{
    Lay l = kind(3);
    make(l);
    unsigned a = vf_u8("a"), b = vf_u8("b");
    vf_fput(l.h, 2, uint8_t(a));
    vf_fput(l.h, 3, uint8_t(b));
    unsigned v = ((a >> 4) * 10 + (a & 15)) * 100 + (b >> 4) * 10 + (b & 15);
    bool known = false;
    for (short x : fmts)
        known = known || unsigned(x) == v;
    bool threw = false;
    try {
        ISEGD s(vf_path("in.sgd"));
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw == !known, "exactly the known sample formats are accepted");
    vf_cover("format");
}

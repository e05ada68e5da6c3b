#include "segy.hpp"
#include "segyfields.hpp"
using namespace sg;

static int const fmts[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };

// every sample of a trace decodes to the value its bytes mean: cfg = 3 * format index + byte order,
// + 39: the number of samples is in the extended field, any revision
extern "C" void h_decode(int cfg)
{
    Hdr d;
    d.fmt = fmts[cfg % 39 / 3];
    d.order = cfg % 3;
    d.ns = vf_u16("n_samp");
    uint64_t ns = d.ns;
    if (cfg >= 39) {
        d.ext_ns = vf_u32("n_ext");
        vf_assume(d.ext_ns > 0 && d.ext_ns < 1u << 31);
        d.major = vf_u8("major");
        d.fixed = 1;
        ns = d.ext_ns;
    }
    uint64_t b = uint64_t(bps(d.fmt));
    uint64_t extra = vf_u32("n_extra");
    int64_t h = vf_fnew("in.sgy", 3600 + 240 + ns * b + extra);
    bool le = head(h, d);
    ISEGY s(vf_path("in.sgy"), no_map());
    Trace t = s.read_trace();
    vf_assert(t.samples().size() == ns, "a trace has the number of samples the file declares");
    vf_forall(ns, [&](uint64_t i) {
        uint64_t raw = get(h, 3840 + i * b, int(b), le);
        vf_assert(sample_ok(t.samples()[i], raw, d.fmt), "every sample is the value its bytes encode");
    });
    vf_assert(s.has_trace() == (extra != 0), "the reader stops exactly at the end of the data");
    vf_cover("decode");
}

// ---- binary header.  cfg = 3 * revision (0: below 2, 1: 2 and up) + byte order
static bool bin_ok(CommonSEGY::BinaryHeader const& b, int64_t h, bool le, bool rev2)
{
    bool ok = true;
#define X(m, o, n) ok = ok & (b.m == decltype(b.m)(get(h, 3200 + o, n, le)));
    SEGY_BIN_INT(X)
    if (rev2) {
        SEGY_BIN_R2(X)
    }
#undef X
#define X(m, o, n) ok = ok & (vf_bits(b.m) == get(h, 3200 + o, n, le));
    SEGY_BIN_DBL(X)
#undef X
    return ok;
}
extern "C" void h_binhdr(int cfg)
{
    int order = cfg % 3;
    bool rev2 = cfg / 3;
    uint64_t size = 3600 + uint64_t(vf_u32("n_extra"));
    int64_t h = vf_fnew("in.sgy", size);
    bool le = set_order(h, order);
    uint8_t major = vf_u8("major");
    vf_assume(rev2 ? major > 1 : major <= 1);
    vf_fput(h, 3500, major);
    put(h, 3504, 0, 2, le);
    uint64_t off = vf_u64("n_off");
    vf_assume(off <= size);
    uint32_t ext = vf_u32("n_ext");
    vf_assume(ext < (1u << 31));
    put(h, 3268, ext, 4, le);
    if (rev2) {
        put(h, 3520, off, 8, le);
        put(h, 3528, 0, 4, le);
    }
    unsigned fmt = vf_u16("fmt");
    bool known = false;
    for (int f : fmts)
        known = known || fmt == unsigned(f);
    vf_assume(known);
    put(h, 3224, fmt, 2, le);
    ISEGY s(vf_path("in.sgy"), no_map());
    CommonSEGY::BinaryHeader const& b = s.binary_header();
    vf_assert(bin_ok(b, h, le, rev2), "every binary header field has the value stored in the file");
    vf_assert(s.text_headers().size() == 1 && s.trailer_stanzas().empty(), "no text headers or stanzas are invented");
    vf_assert(s.text_headers()[0].size() == 3200, "the text header is 3200 bytes long");
    vf_forall(3200, [&](uint64_t i) {
        vf_assert(uint8_t(s.text_headers()[0][i]) == vf_fbyte(h, i), "the text header is the file's first 3200 bytes");
    });
    uint64_t first = rev2 && off ? off : 3600;
    vf_assert(s.has_trace() == (first != size), "a reader on a file without trace data reports no traces");
    vf_cover("binhdr");
}
// caller supplied binary header wins over the file's, except for the byte order
extern "C" void h_override(int order)
{
    uint64_t size = 3600 + uint64_t(vf_u32("n_extra"));
    int64_t h = vf_fnew("in.sgy", size);
    bool le = set_order(h, order);
    CommonSEGY::BinaryHeader u {};
#define X(m, o, n) u.m = decltype(u.m)(vf_u64("u_" #m));
    SEGY_BIN_INT(X)
    SEGY_BIN_R2(X)
#undef X
    u.ext_samp_int = vf_f64("u_si");
    u.ext_samp_int_orig = vf_f64("u_sio");
    u.format_code = 3;
    u.ext_text_headers_num = 0;
    u.num_of_trailer_stanza = 0;
    vf_assume(u.ext_samp_per_tr >= 0);
    vf_assume(u.byte_off_of_first_tr <= size);
    vf_assume(u.SEGY_rev_major_ver < 2 || u.max_num_add_tr_headers == 0);
    ISEGY s(vf_path("in.sgy"), u, no_map());
    CommonSEGY::BinaryHeader const& b = s.binary_header();
    bool ok = true;
#define X(m, o, n) ok = ok & (b.m == u.m);
    SEGY_BIN_INT(X)
    SEGY_BIN_R2(X)
#undef X
    ok = ok & (vf_bits(b.ext_samp_int) == vf_bits(u.ext_samp_int));
    ok = ok & (vf_bits(b.ext_samp_int_orig) == vf_bits(u.ext_samp_int_orig));
    vf_assert(ok, "a binary header supplied by the caller replaces the file's");
    int32_t e;
    unsigned char raw[4];
    for (unsigned i = 0; i < 4; ++i)
        raw[i] = vf_fbyte(h, 3296 + i);
    memcpy(&e, raw, 4);
    vf_assert(b.endianness == e, "the byte order always comes from the file");
    (void)le;
    vf_cover("override");
}
// files that cannot be interpreted are refused with an exception.  0: byte order constant, 1: sample format
extern "C" void h_refuse(int cfg)
{
    int64_t h = vf_fnew("in.sgy", 3600 + uint64_t(vf_u32("n_extra")));
    Hdr d;
    bool bad;
    if (cfg == 0) {
        head(h, d);
        for (unsigned i = 0; i < 4; ++i)
            vf_fput(h, 3296 + i, vf_u8("order"));
        uint32_t v = uint32_t(vf_fbe(h, 3296, 4));
        bad = v != 0 && v != 0x01020304 && v != 0x04030201;
        if (v == 0x04030201)
            head(h, [] { Hdr x; x.order = 2; return x; }());
    } else {
        d.order = cfg - 1;
        d.fmt = int(vf_u16("fmt"));
        head(h, d);
        bad = bps(d.fmt) == 0;
    }
    bool threw = false;
    try {
        ISEGY s(vf_path("in.sgy"), no_map());
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw == bad, "exactly the files with an unknown byte order or sample format are refused");
    vf_cover("refuse");
}
// truncated files are refused, never read past the end
extern "C" void h_short(int)
{
    uint64_t size = vf_u64("n_size");
    vf_assume(size < 3600);
    vf_fnew("in.sgy", size);
    bool threw = false;
    try {
        ISEGY s(vf_path("in.sgy"), no_map());
    } catch (std::exception const&) {
        threw = true;
    }
    vf_assert(threw, "a file too short for its headers is refused");
    vf_cover("short");
}
extern "C" void h_shorttrace(int)
{
    Hdr d;
    d.fmt = 3;
    d.ns = vf_u16("n_samp");
    uint64_t size = 3600 + uint64_t(vf_u32("n_data"));
    int64_t h = vf_fnew("in.sgy", size);
    head(h, d);
    ISEGY s(vf_path("in.sgy"), no_map());
    bool threw = false;
    try {
        Trace t = s.read_trace();
    } catch (std::exception const&) {
        threw = true;
    }
    vf_assert(threw == (size < 3840 + d.ns * 2ull), "a trace is delivered exactly when all of its bytes are there");
    vf_cover("shorttrace");
}

#include "segy.hpp"
#include "segyfields.hpp"
#include "stdfields.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include <memory>
#include <unordered_map>
using namespace sg;
using BH = CommonSEGY::BinaryHeader;
using Value = Trace::Header::Value;
using UMap = std::unordered_map<std::string, Value>;

static int const fmts[] = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16 };
static int32_t mark(int order)
{
    static int32_t const v[3] = { 0, 0x04030201, 0x01020304 };
    return v[order];
}
// samples: any double for the floating point formats; numbers inside the range of the integer
// formats, with fractions
static bool is_float(int fmt) { return fmt == 1 || fmt == 5 || fmt == 6; }
static bool is_signed(int fmt) { return fmt == 2 || fmt == 3 || fmt == 7 || fmt == 8 || fmt == 9; }
static std::vector<double> samples(int64_t h, uint64_t n, int fmt)
{
    std::vector<double> v(n);
    if (is_float(fmt)) {
        if (n)
            vf_fcopy(h, 0, reinterpret_cast<char*>(v.data()), n * 8);
        return v;
    }
    int w = bps(fmt);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t raw = vf_fle(h, i * 8, 8);
        if (w == 8)
            v[i] = double(is_signed(fmt) ? int64_t(raw) >> 12 : int64_t(raw >> 12)) * 2048.;
        else
            v[i] = double(is_signed(fmt) ? int64_t(raw) >> (56 - 8 * w) : int64_t(raw >> (56 - 8 * w))) * 0.00390625;
    }
    return v;
}
// the encoding of a sample
static bool enc_ok(uint64_t raw, double s, int fmt)
{
    int n = bps(fmt);
    if (fmt == 6)
        return raw == vf_bits(s);
    if (fmt == 5) {
        float f = float(s);
        uint32_t b;
        memcpy(&b, &f, 4);
        return raw == b || (s != s && (raw & 0x7fffffff) > 0x7f800000);
    }
    if (fmt == 1) {
        uint64_t b = vf_bits(s);
        uint32_t sg = uint32_t(b >> 63) << 31;
        int E = int(b >> 52 & 0x7ff);
        if (E == 0x7ff && (b & 0xfffffffffffff))
            return true; // not a number
        if (E < 1023 - 260)
            return (raw & 0x7fffffff) == 0; // below 16^-65
        if (E >= 1023 + 252)
            return raw == (sg | 0x7fffffff); // 16^63 and above
        // 16^(x-1) <= |s| < 16^x
        int x = (E - 1022 + 3 + 400) / 4 - 100;
        uint64_t f = ((b & 0xfffffffffffff) | 0x10000000000000) >> (1075 - E - 24 + 4 * x);
        return raw == (sg | uint32_t(x + 64) << 24 | uint32_t(f));
    }
    uint64_t t;
    if (is_signed(fmt))
        t = uint64_t(int64_t(s));
    else
        t = uint64_t(s);
    return raw == (n == 8 ? t : t & ((uint64_t(1) << (8 * n)) - 1));
}
static Maps kmap()
{
    return Maps { { "SEG00000", Map { { 114, { "SAMP_NUM", VT::uint16_t } }, { 20, { "K", VT::int32_t } } } } };
}
// sample encoding.  cfg = 3 * format + order
extern "C" void h_encode(int cfg)
{
    int fmt = fmts[cfg / 3], order = cfg % 3;
    uint64_t n = vf_u16("n_samp");
    int64_t sh = vf_fnew("smp", n * 8);
    std::vector<double> s = samples(sh, n, fmt);
    BH b {};
    b.endianness = mark(order);
    b.format_code = int16_t(fmt);
    b.samp_per_tr = int16_t(n);
    b.job_id = 1;
    vf_fnew("out.sgy", 0);
    {
        OSEGYRev0 w(vf_path("out.sgy"), std::string(3200, ' '), b, kmap());
        Trace t(UMap {}, s);
        w.write_trace(t);
    }
    int64_t h = vf_fget("out.sgy");
    uint64_t z = uint64_t(bps(fmt));
    vf_assert(vf_fsize(h) == 3840 + n * z, "a trace takes its header and the space of its samples");
    vf_forall(n, [&](uint64_t i) {
        uint64_t raw = get(h, 3840 + i * z, int(z), order == 2);
        vf_assert(enc_ok(raw, s[i], fmt), "every sample is stored as its encoding");
    });
    vf_cover("encode");
}

// ---- writers of the three revisions
struct Out {
    int rev = 0;
    std::vector<std::string> text; // first: primary header; none: default
    std::vector<std::string> stanzas;
    BH bh {};
    Maps maps;
    std::unique_ptr<OSEGY> open() const
    {
        vf_fnew("out.sgy", 0);
        std::string p = vf_path("out.sgy");
        if (rev == 0)
            return std::make_unique<OSEGYRev0>(p, text.empty() ? std::string() : text[0], bh, maps);
        if (rev == 1)
            return std::make_unique<OSEGYRev1>(p, text, bh, maps);
        return std::make_unique<OSEGYRev2>(p, text, bh, stanzas, maps);
    }
};
static void same_text(std::string const& s, int64_t h, uint64_t at)
{
    vf_forall(3200, [&](uint64_t i) {
        vf_assert(uint8_t(s[i]) == vf_fbyte(h, at + i), "every text record is stored as given");
    });
}
static char const* const tn[] = { "t0", "t1", "t2", "t3" };
static char const* const sn[] = { "s0", "s1", "s2" };
// binary header.  cfg = order + 3 * revision + 9 * (number of extended text headers)
extern "C" void h_wbin(int cfg)
{
    int order = cfg % 3;
    unsigned ext = unsigned(cfg) / 9;
    Out o;
    o.rev = cfg / 3 % 3;
    BH& u = o.bh;
#define X(m, off, n) u.m = decltype(u.m)(vf_nondet("f_" #m, 8 * n));
    SEGY_BIN_INT(X)
    SEGY_BIN_R2(X)
#undef X
#define X(m, off, n) u.m = vf_f64("f_" #m);
    SEGY_BIN_DBL(X)
#undef X
    u.endianness = mark(order);
    unsigned fmt = vf_u16("fmt");
    bool known = fmt == 0;
    for (int f : fmts)
        known = known || fmt == unsigned(f);
    vf_assume(known);
    u.format_code = int16_t(fmt);
    vf_assume(u.ext_samp_per_tr >= 0);
    vf_assume(u.SEGY_rev_major_ver < 2 || u.max_num_add_tr_headers == 0);
    for (unsigned i = 0; i <= ext; ++i)
        o.text.push_back(vf_string(tn[i], 3200));
    o.maps = no_map();
    o.open();
    BH e = u;
    e.ext_text_headers_num = int16_t(ext);
    e.num_of_trailer_stanza = 0;
    if (fmt == 0)
        e.format_code = o.rev == 0 ? 1 : 5;
    if (o.rev == 1) {
        e.SEGY_rev_major_ver = 1;
        e.SEGY_rev_minor_ver = 0;
    } else if (o.rev == 2) {
        if (u.SEGY_rev_major_ver != 2)
            e.SEGY_rev_minor_ver = 0;
        e.SEGY_rev_major_ver = 2;
    }
    int64_t h = vf_fget("out.sgy");
    bool le = order == 2;
    vf_assert(vf_fsize(h) == 3600 + 3200 * uint64_t(ext), "the file starts with the text and binary headers");
#define X(m, off, n) vf_assert(decltype(e.m)(get(h, 3200 + off, n, le)) == e.m, "every binary header field is stored at its place: " #m);
    SEGY_BIN_INT(X)
    SEGY_BIN_R2(X)
#undef X
#define X(m, off, n) vf_assert(get(h, 3200 + off, n, le) == vf_bits(e.m), "every binary header field is stored at its place: " #m);
    SEGY_BIN_DBL(X)
#undef X
    static unsigned char const mk[3][4] = { { 0, 0, 0, 0 }, { 1, 2, 3, 4 }, { 4, 3, 2, 1 } };
    for (unsigned i = 0; i < 4; ++i)
        vf_assert(vf_fbyte(h, 3296 + i) == mk[order][i], "the byte order mark shows the byte order of the file");
    vf_forall(200, [&](uint64_t i) { vf_assert(vf_fbyte(h, 3300 + i) == 0, "unassigned bytes are zero"); });
    vf_forall(68, [&](uint64_t i) { vf_assert(vf_fbyte(h, 3532 + i) == 0, "unassigned bytes are zero"); });
    same_text(o.text[0], h, 0);
    for (unsigned i = 1; i <= ext; ++i)
        same_text(o.text[i], h, 3600 + 3200 * (i - 1));
    vf_cover("wbin");
}

// ---- trace headers
static Value num(TypeInfo const& t, char const* n)
{
    if (t.kind == 'i' || t.kind == 'u') {
        uint64_t v = vf_u64(n);
        if (t.n < 8) // any value of the type
            v = t.kind == 'i' ? uint64_t(sx(v, t.n)) : v & ((uint64_t(1) << (8 * t.n)) - 1);
        return Value { int64_t(v) };
    }
    return Value { vf_f64(n) };
}
static bool val_ok(uint64_t raw, Value const& v, TypeInfo const& t)
{
    if (t.kind == 'i' || t.kind == 'u') {
        uint64_t m = t.n == 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * t.n)) - 1;
        return raw == (uint64_t(std::get<int64_t>(v)) & m);
    }
    return enc_ok(raw, std::get<double>(v), t.kind == 'b' ? 1 : t.kind == 's' ? 5 : 6);
}
// two fields anywhere in the header.  cfg = order + 3 * type
extern "C" void h_wfield(int cfg)
{
    TypeInfo const& ti = types[cfg / 3];
    int order = cfg % 3;
    uint32_t o1 = vf_u32("n_off1"), o2 = vf_u32("n_off2");
    vf_assume(o1 < 240 && o2 < 240 && o1 + uint32_t(ti.n) <= o2 && o2 + 2 <= 240);
    Out o;
    o.rev = 0;
    o.text.push_back(std::string(3200, ' '));
    o.bh.endianness = mark(order);
    o.bh.job_id = 1;
    o.maps = Maps { { "SEG00000", Map { { o1, { "ONE", ti.t } }, { o2, { "TWO", VT::int16_t } } } } };
    UMap m;
    m["ONE"] = num(ti, "v1");
    m["TWO"] = num(types[2], "v2");
    m["THREE"] = num(types[2], "v3");
    {
        auto w = o.open();
        Trace t(m, {});
        w->write_trace(t);
    }
    int64_t h = vf_fget("out.sgy");
    vf_assert(vf_fsize(h) == 3840, "a trace header takes 240 bytes");
    vf_assert(val_ok(get(h, 3600 + o1, ti.n, order == 2), m["ONE"], ti), "a mapped field is stored at its place");
    vf_assert(val_ok(get(h, 3600 + o2, 2, order == 2), m["TWO"], types[2]), "a second mapped field is stored at its place");
    vf_forall(240, [&](uint64_t i) {
        if (!(i >= o1 && i < o1 + unsigned(ti.n)) && !(i >= o2 && i < o2 + 2))
            vf_assert(vf_fbyte(h, 3600 + i) == 0, "bytes without a mapped field are zero");
    });
    vf_cover("wfield");
}
// fields the trace does not have are zero, values of the other kind are converted.  cfg = order + 3 * type
extern "C" void h_wother(int cfg)
{
    TypeInfo const& ti = types[cfg / 3];
    int order = cfg % 3;
    Out o;
    o.rev = 0;
    o.text.push_back(std::string(3200, ' '));
    o.bh.endianness = mark(order);
    o.bh.job_id = 1;
    o.maps = Maps { { "SEG00000", Map { { 4, { "ABSENT", ti.t } }, { 20, { "OTHER", ti.t } } } } };
    bool flt = !(ti.kind == 'i' || ti.kind == 'u');
    int64_t v = sx(vf_u64("v"), ti.n < 4 ? ti.n : 4);
    if (ti.kind == 'u')
        v &= 0x7f;
    UMap m;
    m["OTHER"] = flt ? Value { v } : Value { double(v) };
    for (int k = 0; k < 2; ++k) {
        auto w = o.open();
        Trace t(m, {});
        w->write_trace(t);
        if (k) {
            Trace u(UMap {}, {});
            w->write_trace(u);
        }
    }
    int64_t h = vf_fget("out.sgy");
    vf_assert(get(h, 3604, ti.n, false) == 0, "a field the trace does not have is zero");
    vf_assert(val_ok(get(h, 3620, ti.n, order == 2), flt ? Value { double(v) } : Value { v }, ti), "a number of the other kind is converted");
    vf_assert(get(h, 3860, ti.n, false) == 0, "a field the trace does not have is zero, also behind a trace that has it");
    vf_cover("wother");
}
// additional trace headers.  cfg = order + 3 * number + 12 * variable length
extern "C" void h_wadd(int cfg)
{
    int order = cfg % 3;
    unsigned n = unsigned(cfg) / 3 % 4;
    bool var = cfg / 12;
    Out o;
    o.rev = 2;
    o.text.push_back(std::string(3200, ' '));
    o.bh.endianness = mark(order);
    o.bh.SEGY_rev_major_ver = 2;
    o.bh.fixed_tr_length = var ? 0 : 1;
    o.bh.max_num_add_tr_headers = int32_t(n);
    o.bh.format_code = 8;
    o.bh.job_id = 1;
    uint64_t ns = vf_u16("n_samp");
    o.bh.samp_per_tr = var ? 0 : int16_t(ns);
    static char const* const nm[] = { "A", "B", "C", "D" };
    static char const* const id[] = { "SEG00000", "SEG00001", "USERHDR2", "USERHDR3" };
    static int const ty[] = { 6, 12, 2, 10 };
    UMap m;
    for (unsigned i = 0; i <= n; ++i) {
        o.maps.push_back({ id[i], Map { { 8 * i, { nm[i], types[ty[i]].t } } } });
        m[nm[i]] = num(types[ty[i]], "v");
    }
    m["SAMP_NUM"] = Value { int64_t(ns) };
    int64_t sh = vf_fnew("smp", ns * 8);
    std::vector<double> s = samples(sh, ns, 8);
    {
        auto w = o.open();
        Trace t(m, s);
        w->write_trace(t);
        w->write_trace(t);
    }
    int64_t h = vf_fget("out.sgy");
    uint64_t len = 240 * uint64_t(n + 1) + ns;
    vf_assert(vf_fsize(h) == 3600 + 2 * len, "a trace takes its headers and the space of its samples");
    for (unsigned k = 0; k < 2; ++k) {
        for (unsigned i = 0; i <= n; ++i) {
            uint64_t at = 3600 + k * len + 240 * i;
            TypeInfo const& t = types[ty[i]];
            vf_assert(val_ok(get(h, at + 8 * i, t.n, order == 2), m[nm[i]], t), "every additional header is stored behind the first one with its own map");
            vf_forall(240, [&](uint64_t j) {
                if (!(j >= 8 * i && j < 8 * i + unsigned(t.n)))
                    vf_assert(vf_fbyte(h, at + j) == 0, "bytes without a mapped field are zero");
            });
        }
        vf_forall(ns, [&](uint64_t i) {
            vf_assert(enc_ok(vf_fbyte(h, 3600 + k * len + 240 * (n + 1) + i), s[i], 8), "samples follow the last header");
        });
    }
    vf_cover("wadd");
}
// the default map is the standard's.  cfg = order + 3 * revision 2 with extension header
extern "C" void h_wdefault(int cfg)
{
    int order = cfg % 3;
    bool ext = cfg / 3;
    vf_fnew("out.sgy", 0);
    BH b {};
    b.endianness = mark(order);
    b.format_code = 8;
    b.fixed_tr_length = 1;
    b.max_num_add_tr_headers = ext ? 1 : 0;
    UMap m;
    for (Std const& f : std0)
        m[f.name] = num(types[f.type], "v");
    if (ext)
        for (Std const& f : std1)
            m[f.name] = num(types[6], "v");
    {
        Trace t(m, {});
        if (ext) {
            b.SEGY_rev_major_ver = 2;
            OSEGYRev2 w(vf_path("out.sgy"), { std::string(3200, ' ') }, b);
            w.write_trace(t);
        } else {
            OSEGYRev0 w(vf_path("out.sgy"), std::string(3200, ' '), b);
            w.write_trace(t);
        }
    }
    int64_t h = vf_fget("out.sgy");
    for (Std const& f : std0) {
        TypeInfo const& t = types[f.type];
        vf_assert(val_ok(get(h, 3600 + f.off, t.n, order == 2), m[f.name], t), "every standard field is stored at its standard place");
    }
    if (ext)
        for (Std const& f : std1) {
            TypeInfo const& t = types[f.type];
            int64_t v = std::get<int64_t>(m[f.name]);
            vf_assert(val_ok(get(h, 3840 + f.off, t.n, order == 2), t.kind == 'd' ? Value { double(v) } : Value { v }, t),
                "every extension field is stored at its standard place");
        }
    vf_forall(8, [&](uint64_t i) { vf_assert(vf_fbyte(h, 3832 + i) == 0, "unassigned bytes are zero"); });
    vf_cover("wdefault");
}

// ---- whole files
// cfg = order + 3 * revision + 9 * extended text headers (0, 1) + 18 * variable length
// two traces behind one another; trailer stanzas at the end for revision 2
extern "C" void h_layout(int cfg)
{
    int order = cfg % 3;
    unsigned ext = unsigned(cfg) / 9 % 2;
    bool var = cfg / 18;
    Out o;
    o.rev = cfg / 3 % 3;
    vf_assume(o.rev || !var);
    for (unsigned i = 0; i <= ext; ++i)
        o.text.push_back(vf_string(tn[i], 3200));
    unsigned nst = o.rev == 2 ? 2 : 0;
    for (unsigned i = 0; i < nst; ++i)
        o.stanzas.push_back(vf_string(sn[i], 3200));
    uint64_t n0 = vf_u16("n_samp0"), n1 = var ? vf_u16("n_samp1") : n0;
    o.bh.endianness = mark(order);
    o.bh.format_code = 3;
    o.bh.samp_per_tr = int16_t(n0);
    o.bh.fixed_tr_length = var ? 0 : 1;
    o.bh.job_id = int32_t(vf_u32("job"));
    vf_assume(o.bh.job_id != 0);
    o.maps = kmap();
    std::vector<double> s0 = samples(vf_fnew("smp0", n0 * 8), n0, 3), s1 = samples(vf_fnew("smp1", n1 * 8), n1, 3);
    int64_t k0 = sx(vf_u32("k0"), 4), k1 = sx(vf_u32("k1"), 4);
    {
        auto w = o.open();
        UMap m;
        m["K"] = Value { k0 };
        m["SAMP_NUM"] = Value { int64_t(n0) };
        Trace t(m, s0);
        w->write_trace(t);
        UMap m1;
        m1["K"] = Value { k1 };
        m1["SAMP_NUM"] = Value { int64_t(n1) };
        Trace t1(m1, s1);
        w->write_trace(t1);
    }
    int64_t h = vf_fget("out.sgy");
    bool le = order == 2;
    uint64_t at0 = 3600 + 3200 * uint64_t(o.rev ? ext : 0), at1 = at0 + 240 + 2 * n0, end = at1 + 240 + 2 * n1;
    vf_assert(vf_fsize(h) == end + 3200 * nst, "the file holds the headers, the traces and the stanzas and nothing else");
    same_text(o.text[0], h, 0);
    if (o.rev)
        for (unsigned i = 1; i <= ext; ++i)
            same_text(o.text[i], h, 3600 + 3200 * (i - 1));
    vf_assert(get(h, 3200, 4, le) == uint32_t(o.bh.job_id), "the binary header is kept while traces are written");
    vf_assert(get(h, 3220, 2, le) == n0, "the binary header is kept while traces are written");
    vf_assert(get(h, 3504, 2, le) == (o.rev ? ext : 0), "the binary header counts the extended text headers");
    vf_assert(get(h, 3528, 4, le) == nst, "the binary header counts the trailer stanzas");
    vf_assert(get(h, at0 + 20, 4, le) == uint32_t(k0) && get(h, at0 + 114, 2, le) == n0, "the first trace follows the headers");
    vf_forall(n0, [&](uint64_t i) {
        vf_assert(enc_ok(get(h, at0 + 240 + 2 * i, 2, le), s0[i], 3), "the samples of the first trace follow its header");
    });
    vf_assert(get(h, at1 + 20, 4, le) == uint32_t(k1) && get(h, at1 + 114, 2, le) == n1, "the second trace follows the first");
    vf_forall(n1, [&](uint64_t i) {
        vf_assert(enc_ok(get(h, at1 + 240 + 2 * i, 2, le), s1[i], 3), "the samples of the second trace follow its header");
    });
    for (unsigned i = 0; i < nst; ++i)
        same_text(o.stanzas[i], h, end + 3200 * i);
    vf_cover("layout");
}
// an empty binary header is completed from the first trace.  cfg = revision + 3 * (0: nothing given, 1: format given and floating point interval)
// + 6 * (number of traces - 1)
extern "C" void h_wempty(int cfg)
{
    Out o;
    o.rev = cfg % 3;
    o.text.push_back(vf_string("t0", 3200));
    int fmt = o.rev ? 5 : 1;
    bool two = cfg / 6;
    if (cfg / 3 % 2)
        o.bh.format_code = int16_t(fmt);
    uint64_t n = vf_u16("n_samp");
    vf_assume(n <= 32767);
    bool di = cfg / 3 % 2;
    int16_t si = int16_t(vf_u16("interval"));
    vf_assume(si != 0);
    o.maps = Maps { { "SEG00000", Map { { 114, { "SAMP_NUM", VT::uint16_t } }, { 116, { "SAMP_INT", VT::int16_t } }, { 20, { "K", VT::int32_t } } } } };
    std::vector<double> s0(n), s1(n); // the encoding of samples is h_encode's
    int64_t k0 = sx(vf_u32("k0"), 4), k1 = sx(vf_u32("k1"), 4);
    {
        auto w = o.open();
        UMap m;
        m["SAMP_NUM"] = Value { int64_t(n) };
        m["SAMP_INT"] = di ? Value { double(si) } : Value { int64_t(si) };
        m["K"] = Value { k0 };
        Trace t(m, s0);
        w->write_trace(t);
        if (two) {
            m["K"] = Value { k1 };
            Trace t1(m, s1);
            w->write_trace(t1);
        }
    }
    int64_t h = vf_fget("out.sgy");
    uint64_t at1 = 3840 + 4 * n;
    vf_assert(vf_fsize(h) == at1 + (two ? 240 + 4 * n : 0), "the file holds the headers and the traces and nothing else");
    same_text(o.text[0], h, 0);
    vf_assert(get(h, 3220, 2, false) == n, "the number of samples is taken from the first trace");
    vf_assert(int16_t(get(h, 3216, 2, false)) == si, "the sample interval is taken from the first trace");
    vf_assert(int(get(h, 3224, 2, false)) == fmt, "the sample format is the default of the revision");
    vf_assert(int(vf_fbyte(h, 3500)) == o.rev, "the file shows its revision");
    vf_forall(400, [&](uint64_t i) {
        if (!(i >= 16 && i < 26) && i != 300)
            vf_assert(vf_fbyte(h, 3200 + i) == 0, "everything else in the binary header is zero");
    });
    vf_assert(get(h, 3620, 4, false) == uint32_t(k0) && get(h, 3714, 2, false) == n && int16_t(get(h, 3716, 2, false)) == si, "the first trace follows the headers");
    if (two)
        vf_assert(get(h, at1 + 20, 4, false) == uint32_t(k1), "the second trace follows the first");
    vf_forall(4 * n, [&](uint64_t i) {
        vf_assert(vf_fbyte(h, 3840 + i) == 0, "the samples of the first trace follow its header");
        if (two)
            vf_assert(vf_fbyte(h, at1 + 240 + i) == 0, "the samples of the second trace follow its header");
    });
    vf_cover("wempty");
}
// what cannot be written is refused.
// cfg = revision + 3 * what; what: 0 number of samples, 1 interval, 2 text header size, 3 byte order, 4 format,
// 5 fixed length, other number of samples, 6 variable length, other number of samples
extern "C" void h_wrefuse(int cfg)
{
    Out o;
    o.rev = cfg % 3;
    int what = cfg / 3;
    uint64_t n = vf_u16("n_samp");
    o.text.push_back(std::string(3200, ' '));
    o.maps = kmap();
    bool bad = true;
    UMap m;
    bool has = vf_bool("has");
    if (what == 0) {
        int64_t v = int64_t(vf_u64("v"));
        if (has)
            m["SAMP_NUM"] = Value { v };
        m["SAMP_INT"] = Value { int64_t(2000) };
        bad = !has || v < 0 || v > 32767 || uint64_t(v) != n;
    } else if (what == 1) {
        vf_assume(n <= 32767);
        m["SAMP_NUM"] = Value { int64_t(n) };
        double d = vf_f64("d");
        if (has)
            m["SAMP_INT"] = Value { d };
        bad = !has || !(d >= -32768 && d <= 32767) || (d > -1 && d < 1);
    } else if (what == 2) {
        uint64_t k = vf_u16("n_text");
        o.bh.job_id = 1;
        o.bh.fixed_tr_length = 1;
        o.bh.samp_per_tr = int16_t(n);
        if (o.rev && has) {
            o.text.push_back(std::string(k, ' '));
            bad = k != 3200;
        } else {
            o.text[0] = std::string(k, ' ');
            bad = k != 3200 && (o.rev || k);
        }
    } else if (what == 3) {
        o.bh.endianness = int32_t(vf_u32("order"));
        o.bh.job_id = 1;
        o.bh.fixed_tr_length = 1;
        o.bh.samp_per_tr = int16_t(n);
        bad = o.bh.endianness != 0 && o.bh.endianness != 0x01020304 && o.bh.endianness != 0x04030201;
    } else if (what == 4) {
        unsigned f = vf_u16("fmt");
        o.bh.format_code = int16_t(f);
        o.bh.job_id = 1;
        o.bh.fixed_tr_length = 1;
        o.bh.samp_per_tr = int16_t(n);
        bad = f != 0;
        for (int g : fmts)
            bad = bad && f != unsigned(g);
    } else if (what == 5) {
        uint64_t k = vf_u16("n_stated");
        o.bh.format_code = 8;
        o.bh.job_id = 1;
        o.bh.fixed_tr_length = 1;
        o.bh.samp_per_tr = int16_t(k);
        bad = k != n;
    } else {
        vf_assume(o.rev != 0);
        int64_t v = int64_t(vf_u64("v"));
        if (has)
            m["SAMP_NUM"] = Value { v };
        o.bh.format_code = 8;
        o.bh.job_id = 1;
        bad = !has || uint64_t(v) != n;
    }
    bool threw = false;
    try {
        auto w = o.open();
        Trace t(m, std::vector<double>(n));
        w->write_trace(t);
    } catch (std::exception const&) {
        threw = true;
    }
    vf_assert(threw == bad, "exactly what cannot be written is refused");
    vf_cover("wrefuse");
}
// the number of samples of long traces is in the extended field.  cfg = revision + 3 * big
extern "C" void h_wext(int cfg)
{
    Out o;
    o.rev = cfg % 3;
    o.text.push_back(std::string(3200, ' '));
    o.maps = kmap();
    uint64_t n = vf_u32("n_samp");
    vf_assume(n < 1u << 31 && n > 0);
    o.bh.format_code = 8;
    o.bh.ext_samp_per_tr = int32_t(n);
    o.bh.samp_per_tr = int16_t(vf_u16("short"));
    o.bh.fixed_tr_length = 1;
    std::vector<double> s = samples(vf_fnew("smp0", n * 8), n, 8);
    {
        auto w = o.open();
        Trace t(UMap {}, s);
        w->write_trace(t);
    }
    int64_t h = vf_fget("out.sgy");
    vf_assert(vf_fsize(h) == 3840 + n, "the extended number of samples counts if there is one");
    vf_forall(n, [&](uint64_t i) {
        vf_assert(enc_ok(vf_fbyte(h, 3840 + i), s[i], 8), "every sample is stored as its encoding");
    });
    vf_cover("wext");
}
// default text headers
extern "C" void h_wtext(int rev)
{
    Out o;
    o.rev = rev;
    o.maps = kmap();
    o.bh.job_id = 1;
    o.bh.fixed_tr_length = 1;
    o.open();
    std::string d(CommonSEGY::default_text_header, 3200);
    static char const* const r[] = { "            ", "SEG Y REV1  ", "SEG-Y_REV2.0" };
    for (unsigned i = 0; i < 12; ++i)
        d[38 * 80 + 4 + i] = r[rev][i];
    if (rev == 0)
        CommonSEGY::ascii_to_ebcdic(d);
    int64_t h = vf_fget("out.sgy");
    vf_assert(vf_fsize(h) == 3600, "the file starts with the text and binary headers");
    bool ok = true;
    for (unsigned i = 0; i < 3200; ++i)
        ok = ok & (uint8_t(d[i]) == vf_fbyte(h, i));
    vf_assert(ok, "the default text header names the revision and is otherwise the standard one");
    vf_cover("wtext");
}

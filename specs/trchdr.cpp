#include "segy.hpp"
#include "stdfields.hpp"
using namespace sg;

static bool value_ok(Trace::Header::Value const& v, uint64_t raw, TypeInfo const& t)
{
    switch (t.kind) {
    case 'i':
        return std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == sx(raw, t.n);
    case 'u':
        return std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == int64_t(raw);
    case 'b':
        return std::holds_alternative<double>(v) && sample_ok(std::get<double>(v), raw, 1);
    case 's':
        return std::holds_alternative<double>(v) && sample_ok(std::get<double>(v), raw, 5);
    default:
        return std::holds_alternative<double>(v) && sample_ok(std::get<double>(v), raw, 6);
    }
}

// any two non-overlapping fields, anywhere in the 240 bytes.  cfg = 3 * type + order
extern "C" void h_field(int cfg)
{
    TypeInfo const& ti = types[cfg / 3];
    Hdr d;
    d.order = cfg % 3;
    d.fmt = 8;
    d.ns = vf_u16("n_samp");
    int64_t h = vf_fnew("in.sgy", 3840 + d.ns);
    bool le = head(h, d);
    uint32_t o1 = vf_u32("n_off1"), o2 = vf_u32("n_off2");
    vf_assume(o1 < 240 && o2 < 240 && o1 + uint32_t(ti.n) <= o2 && o2 + 2 <= 240);
    Maps m { { "SEG00000", Map { { o1, { "ONE", ti.t } }, { o2, { "TWO", VT::uint16_t } } } } };
    ISEGY s(vf_path("in.sgy"), m);
    Trace::Header x = s.read_header();
    auto a = x.get("ONE"), b = x.get("TWO"), c = x.get("THREE");
    vf_assert(a.has_value() && value_ok(*a, get(h, 3600 + o1, ti.n, le), ti), "a mapped trace header field has the stored value");
    vf_assert(b.has_value() && value_ok(*b, get(h, 3600 + o2, 2, le), types[3]), "a second mapped field has its own value");
    vf_assert(!c.has_value() && x.keys().size() == 2, "only mapped fields are present");
    vf_assert(!s.has_trace(), "reading a header skips the samples");
    vf_cover("field");
}

// additional trace headers: cfg = 2 * (number declared) + order; the map covers two of them
extern "C" void h_addhdr(int cfg)
{
    int n = cfg / 2;
    Hdr d;
    d.order = cfg % 2 ? 2 : 1;
    d.fmt = 8;
    d.major = 2;
    d.fixed = 1;
    d.max_add = n;
    d.ns = vf_u16("n_samp");
    uint64_t hs = 240 * uint64_t(n + 1);
    int64_t h = vf_fnew("in.sgy", 3600 + hs + d.ns);
    bool le = head(h, d);
    uint32_t o0 = vf_u32("n_off0"), o1 = vf_u32("n_off1");
    vf_assume(o0 <= 236 && o1 <= 232);
    Maps m { { "SEG00000", Map { { o0, { "A", VT::int32_t } } } }, { "SEG00001", Map { { o1, { "B", VT::ieee_double } } } } };
    ISEGY s(vf_path("in.sgy"), m);
    bool full = vf_bool("full");
    Trace::Header x = full ? Trace::Header(s.read_trace().header()) : s.read_header();
    auto a = x.get("A"), b = x.get("B");
    vf_assert(a.has_value() && value_ok(*a, get(h, 3600 + o0, 4, le), types[6]), "the first header is decoded with the first map");
    vf_assert(b.has_value() == (n > 0), "an additional header is decoded exactly when the file declares it");
    if (n > 0)
        vf_assert(value_ok(*b, get(h, 3840 + o1, 8, le), types[12]), "an additional header is decoded with its own map");
    vf_assert(!s.has_trace(), "every declared trace header is skipped, mapped or not");
    vf_cover("addhdr");
}
static bool same(char const* a, char const* b)
{
    while (*a && *a == *b)
        ++a, ++b;
    return *a == *b;
}
// the default map is the standard's.  cfg = 3 * (revision 2 with extension header) + order
extern "C" void h_default(int cfg)
{
    bool ext = cfg / 3;
    Hdr d;
    d.order = cfg % 3;
    d.fmt = 8;
    d.ns = 0;
    if (ext) {
        d.major = 2;
        d.fixed = 1;
        d.max_add = 1;
    }
    int64_t h = vf_fnew("in.sgy", 3840 + (ext ? 240 : 0));
    bool le = head(h, d);
    ISEGY s(vf_path("in.sgy"));
    Trace::Header x = s.read_header();
    unsigned count = 0;
    for (Std const& f : std0) {
        bool over = false;
        if (ext)
            for (Std const& g : std1)
                if (same(f.name, g.name))
                    over = true;
        ++count;
        if (over)
            continue;
        auto v = x.get(f.name);
        vf_assert(v.has_value() && value_ok(*v, get(h, 3600 + f.off, types[f.type].n, le), types[f.type]),
            "every standard trace header field is found at its standard place");
    }
    if (ext)
        for (Std const& f : std1) {
            auto v = x.get(f.name);
            vf_assert(v.has_value() && value_ok(*v, get(h, 3840 + f.off, types[f.type].n, le), types[f.type]),
                "every extension header field is found at its standard place");
            bool in0 = false;
            for (Std const& g : std0)
                if (same(f.name, g.name))
                    in0 = true;
            if (!in0)
                ++count;
        }
    vf_assert(x.keys().size() == count, "the header holds exactly the mapped fields");
    vf_cover("default");
}

#include "segy.hpp"
using namespace sg;

static char const end_text[] = "((SEG: EndText))";
static void put_end(int64_t h, uint64_t at)
{
    for (unsigned i = 0; i < 16; ++i)
        vf_fput(h, at + i, uint8_t(end_text[i]));
}
static bool is_end(int64_t h, uint64_t at)
{
    bool r = true;
    for (unsigned i = 0; i < 16; ++i)
        r = r & (vf_fbyte(h, at + i) == uint8_t(end_text[i]));
    return r;
}
static void same_text(std::string const& s, int64_t h, uint64_t at)
{
    vf_assert(s.size() == 3200, "every text record is 3200 bytes long");
    vf_forall(3200, [&](uint64_t i) {
        vf_assert(uint8_t(s[i]) == vf_fbyte(h, at + i), "every text record has the bytes stored in the file");
    });
}
static Maps kmap()
{
    return Maps { { "SEG00000", Map { { 114, { "SAMP_NUM", VT::uint16_t } }, { 20, { "K", VT::int32_t } } } } };
}
// the next trace is the one stored at `at`
static void trace_at(ISEGY& s, int64_t h, uint64_t at, bool le)
{
    vf_assert(s.has_trace(), "trace data starts right behind the last text record");
    Trace::Header x = s.read_header();
    vf_assert(std::get<int64_t>(*x.get("K")) == sx(get(h, at + 20, 4, le), 4), "trace data starts right behind the last text record");
}
// a stated number of extended text headers; cfg = 3 * number + order
extern "C" void h_ext(int cfg)
{
    Hdr d;
    unsigned k = unsigned(cfg) / 3;
    d.order = cfg % 3;
    d.fmt = 8;
    d.ext_text = int(k);
    d.ns = vf_u16("n_samp");
    d.major = vf_u8("major");
    d.fixed = 1;
    uint64_t at = 3600 + 3200 * k;
    int64_t h = vf_fnew("in.sgy", at + 240 + d.ns);
    bool le = head(h, d);
    ISEGY s(vf_path("in.sgy"), kmap());
    vf_assert(s.text_headers().size() == k + 1, "every extended text header is reported");
    for (unsigned j = 1; j <= k; ++j)
        same_text(s.text_headers()[j], h, 3600 + 3200 * (j - 1));
    same_text(s.text_headers()[0], h, 0);
    trace_at(s, h, at, le);
    vf_assert(!s.has_trace(), "trace data ends at the end of the file");
    vf_cover("ext");
}
// extended text headers up to the end stanza; cfg = 3 * number + order
extern "C" void h_endtext(int cfg)
{
    Hdr d;
    unsigned k = unsigned(cfg) / 3 + 1;
    d.order = cfg % 3;
    d.fmt = 8;
    d.ext_text = -1;
    d.ns = vf_u16("n_samp");
    d.major = 1;
    d.fixed = 1;
    uint64_t at = 3600 + 3200 * k;
    int64_t h = vf_fnew("in.sgy", at + 240 + d.ns);
    bool le = head(h, d);
    for (unsigned j = 0; j + 1 < k; ++j)
        vf_assume(!is_end(h, 3600 + 3200 * j));
    put_end(h, at - 3200);
    ISEGY s(vf_path("in.sgy"), kmap());
    vf_assert(s.text_headers().size() == k + 1, "extended text headers are read up to the end stanza");
    for (unsigned j = 1; j <= k; ++j)
        same_text(s.text_headers()[j], h, 3600 + 3200 * (j - 1));
    trace_at(s, h, at, le);
    vf_cover("endtext");
}
// no end stanza before the end of the file: refused.  cfg = number of whole records
extern "C" void h_noend(int k)
{
    Hdr d;
    d.fmt = 8;
    d.ext_text = -1;
    d.major = 1;
    unsigned more = vf_u16("n_more");
    vf_assume(more < 3200);
    int64_t h = vf_fnew("in.sgy", 3600 + 3200 * uint64_t(k) + more);
    head(h, d);
    for (unsigned j = 0; j < unsigned(k); ++j)
        vf_assume(!is_end(h, 3600 + 3200 * j));
    bool threw = false;
    try {
        ISEGY s(vf_path("in.sgy"), kmap());
    } catch (std::exception const&) {
        threw = true;
    }
    vf_assert(threw, "a file without the announced end stanza is refused");
    vf_cover("noend");
}
// a stated number of trailer stanzas; cfg = 3 * number + order
extern "C" void h_trailer(int cfg)
{
    Hdr d;
    unsigned k = unsigned(cfg) / 3 + 1;
    d.order = cfg % 3;
    d.fmt = 8;
    d.ns = vf_u16("n_samp");
    d.major = 2;
    d.fixed = 1;
    d.stanzas = int(k);
    uint64_t end = 3600 + 240 + d.ns;
    int64_t h = vf_fnew("in.sgy", end + 3200 * k);
    bool le = head(h, d);
    ISEGY s(vf_path("in.sgy"), kmap());
    vf_assert(s.trailer_stanzas().size() == k, "every trailer stanza is reported");
    for (unsigned j = 0; j < k; ++j)
        same_text(s.trailer_stanzas()[j], h, end + 3200 * j);
    trace_at(s, h, 3600, le);
    vf_assert(!s.has_trace(), "trailer stanzas are not taken for traces");
    vf_cover("trailer");
}
// trailer stanzas up to the end stanza behind a stated number of fixed-length traces.
// cfg = order + 3 * (number of stanzas - 1) + 9 * additional headers
extern "C" void h_trailer_fix(int cfg)
{
    Hdr d;
    unsigned k = unsigned(cfg / 3 % 3) + 1;
    unsigned add = unsigned(cfg) / 9;
    d.order = cfg % 3;
    d.fmt = 3;
    d.ns = 50;
    d.major = 2;
    d.fixed = 1;
    d.stanzas = -1;
    d.max_add = int(add);
    d.ntr = vf_u32("n_traces");
    vf_assume(d.ntr > 0);
    uint64_t end = 3600 + d.ntr * (240 * (add + 1) + 100);
    int64_t h = vf_fnew("in.sgy", end + 3200 * k + vf_u8("n_more"));
    bool le = head(h, d);
    for (unsigned j = 0; j + 1 < k; ++j)
        vf_assume(!is_end(h, end + 3200 * j));
    put_end(h, end + 3200 * (k - 1));
    ISEGY s(vf_path("in.sgy"), kmap());
    vf_assert(s.trailer_stanzas().size() == k, "trailer stanzas are read from behind the last trace up to the end stanza");
    for (unsigned j = 0; j < k; ++j)
        same_text(s.trailer_stanzas()[j], h, end + 3200 * j);
    trace_at(s, h, 3600, le);
    vf_assert(s.has_trace() == (d.ntr != 1), "trailer stanzas are not taken for traces");
    vf_cover("trailer_fix");
}
// the same behind variable-length traces: cfg = order + 3 * (number of traces - 1)
extern "C" void h_trailer_var(int cfg)
{
    Hdr d;
    d.order = cfg % 3;
    d.fmt = 3;
    d.major = 2;
    d.stanzas = -1;
    d.ntr = unsigned(cfg) / 3 + 1;
    uint64_t n[3], at[4];
    at[0] = 3600;
    for (unsigned i = 0; i < d.ntr; ++i) {
        n[i] = vf_u16("n_samp");
        at[i + 1] = at[i] + 240 + 2 * n[i];
    }
    uint64_t end = at[d.ntr];
    int64_t h = vf_fnew("in.sgy", end + 3200 + vf_u8("n_more"));
    bool le = head(h, d);
    for (unsigned i = 0; i < d.ntr; ++i)
        put(h, at[i] + 114, n[i], 2, le);
    put_end(h, end);
    ISEGY s(vf_path("in.sgy"), kmap());
    vf_assert(s.trailer_stanzas().size() == 1, "trailer stanzas are read from behind the last trace up to the end stanza");
    same_text(s.trailer_stanzas()[0], h, end);
    for (unsigned i = 0; i < d.ntr; ++i)
        trace_at(s, h, at[i], le);
    vf_assert(!s.has_trace(), "trailer stanzas are not taken for traces");
    vf_cover("trailer_var");
}
// the same with additional trace headers: cfg = order + 3 * (number of additional headers - 1) + 9 * (the trace states them)
extern "C" void h_trailer_add(int cfg)
{
    Hdr d;
    d.order = cfg % 3;
    d.fmt = 3;
    d.major = 2;
    d.stanzas = -1;
    d.ntr = 2;
    d.max_add = cfg / 3 % 3 + 1;
    bool stated = cfg / 9;
    uint64_t n[2], at[3];
    at[0] = 3600;
    for (unsigned i = 0; i < 2; ++i) {
        n[i] = vf_u32("n_samp");
        at[i + 1] = at[i] + 240 * uint64_t(d.max_add + 1) + 2 * n[i];
    }
    uint64_t end = at[2];
    int64_t h = vf_fnew("in.sgy", end + 3200 + vf_u8("n_more"));
    bool le = head(h, d);
    for (unsigned i = 0; i < 2; ++i) {
        put(h, at[i] + 240 + 136, n[i], 4, le);
        put(h, at[i] + 240 + 156, stated ? uint64_t(d.max_add) : 0, 2, le);
    }
    put_end(h, end);
    static char const* const names[] = { "USER0001", "USER0002" };
    Maps m { { "SEG00000", Map { { 20, { "K", VT::int32_t } } } }, { "SEG00001", Map { { 136, { "SAMP_NUM", VT::uint32_t } } } } };
    for (int i = 2; i <= d.max_add; ++i)
        m.push_back({ names[i - 2], Map {} });
    ISEGY s(vf_path("in.sgy"), m);
    vf_assert(s.trailer_stanzas().size() == 1, "trailer stanzas are read from behind the last trace up to the end stanza");
    same_text(s.trailer_stanzas()[0], h, end);
    for (unsigned i = 0; i < 2; ++i)
        trace_at(s, h, at[i], le);
    vf_assert(!s.has_trace(), "trailer stanzas are not taken for traces");
    vf_cover("trailer_add");
}
// an unknown number of stanzas behind an unknown number of traces cannot be located
extern "C" void h_trailer_lost(int order)
{
    Hdr d;
    d.order = order;
    d.fmt = 3;
    d.major = 2;
    d.stanzas = -1;
    d.fixed = int(vf_u16("fixed"));
    int64_t h = vf_fnew("in.sgy", 3600 + uint64_t(vf_u32("n_more")));
    head(h, d);
    bool threw = false;
    try {
        ISEGY s(vf_path("in.sgy"), kmap());
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw, "trailer stanzas that cannot be located are an error");
    vf_cover("trailer_lost");
}

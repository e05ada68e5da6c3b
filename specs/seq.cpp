#include "segy.hpp"
using namespace sg;

// Consecutive traces from an arbitrary position: whatever mix of header-only and full reads, the reader
// delivers the traces one after another.  cfg: bit 0 little endian, bits 1-2 additional headers
extern "C" void h_fixed(int cfg)
{
    int add = cfg >> 1 & 3;
    bool ext = cfg >> 3 & 1;
    Hdr d;
    d.order = cfg & 1 ? 2 : 1;
    d.fmt = 3;
    d.major = 2;
    d.fixed = 1;
    d.max_add = add;
    uint32_t ns;
    d.ns = vf_u16("n_samp");
    ns = d.ns;
    if (ext) {
        d.ext_ns = vf_u32("n_ext");
        vf_assume(d.ext_ns > 0 && d.ext_ns < (1u << 27));
        ns = d.ext_ns;
    }
    uint64_t len = 240ull * unsigned(add + 1) + 2ull * ns;
    uint64_t first = vf_u64("n_first");
    vf_assume(first >= 3600 && first < (1ull << 40));
    d.off = first;
    unsigned more = vf_u8("n_more");
    int64_t h = vf_fnew("in.sgy", first + 2 * len + more);
    bool le = head(h, d);
    Maps m { { "SEG00000", Map { { 9, { "SAMP_NUM", VT::int32_t } }, { 20, { "K", VT::int32_t } } } } };
    ISEGY s(vf_path("in.sgy"), m);
    for (int k = 0; k < 2; ++k) {
        vf_assert(s.has_trace(), "a reader that is not at the end has a trace");
        uint64_t at = first + uint64_t(k) * len;
        int64_t want = sx(get(h, at + 20, 4, le), 4);
        if (vf_bool("full")) {
            Trace t = s.read_trace();
            vf_assert(std::get<int64_t>(*t.header().get("K")) == want, "trace k has the header stored k trace lengths after the first");
            vf_assert(t.samples().size() == ns, "a fixed-length trace has the declared number of samples");
            vf_forall(ns, [&](uint64_t i) {
                vf_assert(t.samples()[i] == double(sx(get(h, at + 240 * unsigned(add + 1) + 2 * i, 2, le), 2)), "trace k has the samples stored behind its header");
            });
        } else {
            Trace::Header x = s.read_header();
            vf_assert(std::get<int64_t>(*x.get("K")) == want, "header-only reading delivers the same header as reading the trace");
        }
    }
    vf_assert(s.has_trace() == (more != 0), "after the last trace the reader reports the end");
    vf_cover("fixed");
}

// variable-length traces: the trace header says how many samples follow; the reader's buffer starts with an
// arbitrary other size.  cfg: bit 0 little endian, 1 revision 2, 2 additional header, 3 read the whole trace
extern "C" void h_var(int cfg)
{
    Hdr d;
    d.order = cfg & 1 ? 2 : 0;
    d.fmt = 3;
    d.major = cfg & 2 ? 2 : 1;
    d.ns = vf_u16("n_samp");
    d.max_add = cfg & 4 ? 1 : 0;
    uint64_t hs = cfg & 4 ? 480 : 240;
    uint32_t n = vf_u32("n_tr");
    vf_assume(n < (1u << 30));
    uint64_t len = hs + 2ull * n;
    uint64_t first = 3600;
    if (cfg & 2) {
        first = vf_u64("n_first");
        vf_assume(first >= 3600 && first < (1ull << 40));
        d.off = first;
    }
    unsigned more = vf_u8("n_more");
    int64_t h = vf_fnew("in.sgy", first + len + more);
    bool le = head(h, d);
    Maps m { { "SEG00000", Map { { 20, { "K", VT::int32_t } }, { 115, { "SAMP_NUM", VT::uint32_t } } } } };
    put(h, first + 115, n, 4, le);
    ISEGY s(vf_path("in.sgy"), m);
    vf_assert(s.has_trace(), "a reader that is not at the end has a trace");
    int64_t want = sx(get(h, first + 20, 4, le), 4);
    if (cfg & 8) {
        Trace t = s.read_trace();
        vf_assert(std::get<int64_t>(*t.header().get("K")) == want, "each header is read right behind the previous trace");
        vf_assert(t.samples().size() == n, "a variable-length trace has the number of samples its header says");
        vf_forall(n, [&](uint64_t i) {
            vf_assert(t.samples()[i] == double(sx(get(h, first + hs + 2 * i, 2, le), 2)), "trace k has the samples stored behind its header");
        });
    } else {
        Trace::Header x = s.read_header();
        vf_assert(std::get<int64_t>(*x.get("K")) == want, "header-only reading delivers the same header as reading the trace");
    }
    vf_assert(s.has_trace() == (more != 0), "after the last trace the reader reports the end");
    vf_cover("var");
}

// any number of header reads advances by that many traces
extern "C" void h_many(int cfg)
{
    Hdr d;
    d.order = cfg & 1 ? 2 : 0;
    d.fmt = 5;
    d.ns = uint16_t(cfg >> 1);
    uint32_t n = vf_u32("n_traces");
    uint64_t len = 240 + 4ull * d.ns;
    int64_t h = vf_fnew("in.sgy", 3600 + n * len);
    head(h, d);
    ISEGY s(vf_path("in.sgy"), no_map());
    uint32_t k = 0;
    while (s.has_trace()) {
        s.read_header();
        ++k;
    }
    vf_assert(k == n, "iterating visits every trace of the file exactly once");
    vf_cover("many");
}

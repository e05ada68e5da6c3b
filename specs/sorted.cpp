// the sorted reader: traces in the order of a header value, equal values in file order
#include "segy.hpp"
#include "ISEGYSorted1D.hpp"
using namespace sg;

struct In {
    unsigned n = 0;
    bool dbl = false;
    bool le = false;
    uint16_t ns = 0;
    uint64_t len = 0;
    int64_t h = 0;
    Trace::Header::Value key[4];
};
static In make(unsigned n, bool dbl, int order)
{
    In in;
    in.n = n;
    in.dbl = dbl;
    Hdr d;
    d.order = order;
    d.fmt = 3;
    d.major = 1;
    d.fixed = 1;
    d.ns = in.ns = n < 3 ? vf_u16("n_samp") : 1; // positions are P04's; more traces at fixed ones
    in.len = 240 + 2ull * in.ns;
    in.h = vf_fnew("in.sgy", 3600 + n * in.len);
    in.le = head(in.h, d);
    for (unsigned i = 0; i < n; ++i) {
        uint64_t at = 3600 + i * in.len;
        put(in.h, at, i, 4, in.le);
        uint64_t b = vf_nondet("key", dbl ? 64 : 32);
        put(in.h, at + 16, b, dbl ? 8 : 4, in.le);
        if (dbl) {
            vf_assume((b & 0x7fffffffffffffff) <= 0x7ff0000000000000); // an order needs numbers
            double x;
            memcpy(&x, &b, 8);
            in.key[i] = x;
        } else
            in.key[i] = sx(b, 4);
    }
    return in;
}
static Maps smap(bool dbl)
{
    return Maps { { "SEG00000", Map { { 0, { "ID", VT::int32_t } }, { 16, { "KEY", dbl ? VT::ieee_double : VT::int32_t } } } } };
}
static unsigned rank_of(In const& in, unsigned i)
{
    unsigned r = 0;
    for (unsigned j = 0; j < in.n; ++j)
        if (in.key[j] < in.key[i] || (j < i && in.key[j] == in.key[i]))
            ++r;
    return r;
}
static unsigned id_of(In const& in, Trace::Header const& x)
{
    uint64_t i = uint64_t(std::get<int64_t>(*x.get("ID")));
    vf_assert(i < in.n, "every header delivered is one of the file");
    return unsigned(i);
}
static void whole(In const& in, Trace const& t, unsigned i)
{
    vf_assert(t.samples().size() == in.ns, "a trace is delivered with all its samples");
    vf_forall(in.ns, [&](uint64_t k) {
        vf_assert(t.samples()[k] == double(sx(get(in.h, 3600 + i * in.len + 240 + 2 * k, 2, in.le), 2)), "a trace is delivered with its own samples");
    });
}
// cfg = number of traces + 5 * floating point key + 10 * full reads + 20 * little endian
extern "C" void h_sorted(int cfg)
{
    bool full = cfg / 10 % 2;
    In in = make(unsigned(cfg) % 5, cfg / 5 % 2, cfg / 20 ? 2 : 0);
    ISEGYSorted1D s(vf_path("in.sgy"), "KEY", smap(in.dbl));
    for (unsigned r = 0; r < in.n; ++r) {
        vf_assert(s.has_trace(), "every trace of the file is delivered");
        if (full) {
            Trace t = s.read_trace();
            unsigned i = id_of(in, t.header());
            vf_assert(rank_of(in, i) == r, "traces come in the order of the header value, equal ones in file order");
            vf_assert(*t.header().get("KEY") == in.key[i], "a trace is delivered with its own header");
            whole(in, t, i);
        } else {
            Trace::Header x = s.read_header();
            unsigned i = id_of(in, x);
            vf_assert(rank_of(in, i) == r, "headers come in the order of the header value, equal ones in file order");
            vf_assert(*x.get("KEY") == in.key[i], "a trace is delivered with its own header");
        }
    }
    vf_assert(!s.has_trace(), "no trace is delivered twice");
    vf_cover("sorted");
}
// keys and traces by key, between sequential reads; cfg = number of traces + 5 * floating point key
extern "C" void h_bykey(int cfg)
{
    In in = make(unsigned(cfg) % 5, cfg / 5 % 2, 0);
    ISEGYSorted1D s(vf_path("in.sgy"), "KEY", smap(in.dbl));
    std::vector<Trace::Header::Value> keys = s.get_keys();
    unsigned distinct = 0;
    for (unsigned i = 0; i < in.n; ++i) {
        bool first = true;
        unsigned below = 0;
        for (unsigned j = 0; j < in.n; ++j) {
            if (j < i && in.key[j] == in.key[i])
                first = false;
            bool fj = true;
            for (unsigned k = 0; k < j; ++k)
                fj = fj && !(in.key[k] == in.key[j]);
            if (fj && in.key[j] < in.key[i])
                ++below;
        }
        if (first) {
            ++distinct;
            vf_assert(below < keys.size() && keys[below] == in.key[i], "every value that occurs is in the list of keys, in order");
        }
    }
    vf_assert(keys.size() == distinct, "the list of keys has each value once");
    Trace::Header::Value v;
    uint64_t b = vf_u64("v");
    if (in.dbl) {
        vf_assume((b & 0x7fffffffffffffff) <= 0x7ff0000000000000);
        double x;
        memcpy(&x, &b, 8);
        v = x;
    } else
        v = int64_t(b);
    uint64_t max = vf_u64("n_max");
    std::vector<Trace::Header> hs = s.get_headers(v, max);
    std::vector<Trace> ts = s.get_traces(v, max);
    unsigned m = 0;
    for (unsigned i = 0; i < in.n; ++i)
        if (in.key[i] == v) {
            if (m < max) {
                vf_assert(m < hs.size() && id_of(in, hs[m]) == i, "the headers of a value are those of the file, in file order");
                vf_assert(m < ts.size() && id_of(in, ts[m].header()) == i, "the traces of a value are those of the file, in file order");
                whole(in, ts[m], i);
                ++m;
            }
        }
    vf_assert(hs.size() == m && ts.size() == m, "no other traces, and no more than asked for, are delivered");
    for (unsigned r = 0; r < in.n; ++r) {
        vf_assert(s.has_trace(), "sequential reading is not disturbed");
        Trace::Header x = s.read_header();
        vf_assert(rank_of(in, id_of(in, x)) == r, "sequential reading is not disturbed");
    }
    vf_assert(!s.has_trace(), "sequential reading is not disturbed");
    vf_cover("bykey");
}
// a header the traces do not have
extern "C" void h_nokey(int)
{
    In in = make(1, false, 0);
    bool threw = false;
    try {
        ISEGYSorted1D s(vf_path("in.sgy"), "OTHER", smap(false));
    } catch (Exception const&) {
        threw = true;
    }
    vf_assert(threw, "sorting by a header the traces do not have is an error");
    vf_cover("nokey");
}

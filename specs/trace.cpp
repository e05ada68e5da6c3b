#include "segy.hpp"
#include <unordered_map>
#include <utility>
using namespace sg;
using Value = Trace::Header::Value;
using UMap = std::unordered_map<std::string, Value>;

static Value val(char const* n)
{
    if (vf_bool("is_int"))
        return Value { int64_t(vf_u64(n)) };
    return Value { vf_f64(n) };
}
static bool same(Value const& a, Value const& b)
{
    if (a.index() != b.index())
        return false;
    if (a.index() == 0)
        return std::get<0>(a) == std::get<0>(b);
    return vf_bits(std::get<1>(a)) == vf_bits(std::get<1>(b));
}
static bool is(Trace::Header const& h, char const* k, Value const& v)
{
    auto o = h.get(k);
    return o.has_value() && same(*o, v);
}
static std::vector<double> smp(char const* name, uint64_t n)
{
    int64_t h = vf_fnew(name, n * 8);
    std::vector<double> v(n);
    if (n)
        vf_fcopy(h, 0, reinterpret_cast<char*>(v.data()), n * 8);
    return v;
}
static char const* const names[] = { "FFID", "CHAN", "SAMP_NUM", "SAMP_INT", "SOU_X", "SOU_Y", "REC_X", "REC_Y", "A_VERY_LONG_HEADER_NAME_OF_A_USER", "", "OFFSET", "INLINE", "XLINE", "CDP_X", "CDP_Y" };
// set and get: cfg = number of other keys present
extern "C" void h_getset(int cfg)
{
    UMap m;
    std::vector<Value> vs;
    for (int i = 0; i < cfg; ++i) {
        vs.push_back(val("v"));
        m[names[i]] = vs.back();
    }
    Trace::Header h(m);
    Value a = val("a"), b = val("b");
    vf_assert(!h.get("NEW").has_value(), "a key that was never set has no value");
    vf_assert(h.keys().size() == size_t(cfg), "the keys are those that were given");
    h.set("NEW", a);
    vf_assert(is(h, "NEW", a), "a value can be read back under its key");
    h.set("NEW", b);
    vf_assert(is(h, "NEW", b), "setting a key again replaces its value");
    for (int i = 0; i < cfg; ++i)
        vf_assert(is(h, names[i], vs[size_t(i)]), "setting one key leaves the others alone");
    auto k = h.keys();
    vf_assert(k.size() == size_t(cfg) + 1, "every key is listed once");
    for (int i = 0; i <= cfg; ++i) {
        int seen = 0;
        for (auto& s : k)
            seen += s == (i == cfg ? "NEW" : names[i]);
        vf_assert(seen == 1, "every key is listed once");
    }
    vf_cover("getset");
}
struct Pair {
    UMap m;
    Value a, b;
    Pair()
        : a(val("a")), b(val("b"))
    {
        m["A"] = a;
        m["B"] = b;
    }
};
static bool has_pair(Trace::Header const& h, Pair const& p)
{
    return is(h, "A", p.a) && is(h, "B", p.b);
}
// headers are values: cfg 0 copy, 1 copy assignment, 2 move, 3 move assignment, 4 self assignment
extern "C" void h_hdrval(int cfg)
{
    Pair p;
    Value c = val("c");
    Trace::Header x(p.m);
    if (cfg == 0) {
        Trace::Header y(x);
        vf_assert(has_pair(y, p) && has_pair(x, p), "a copy has the content of the original");
        y.set("A", c);
        vf_assert(has_pair(x, p), "changing a copy leaves the original alone");
        vf_assert(is(y, "A", c) && is(y, "B", p.b), "changing a copy changes the copy");
        x.set("B", c);
        vf_assert(is(y, "B", p.b), "changing the original leaves the copy alone");
    } else if (cfg == 1) {
        UMap o;
        o["Z"] = c;
        Trace::Header y(o);
        y = x;
        vf_assert(has_pair(y, p) && !y.get("Z") && has_pair(x, p), "assignment replaces the whole content");
        y.set("A", c);
        vf_assert(has_pair(x, p), "changing an assigned header leaves the original alone");
    } else if (cfg == 2) {
        Trace::Header y(std::move(x));
        vf_assert(has_pair(y, p) && y.keys().size() == 2, "a moved header keeps its content");
    } else if (cfg == 3) {
        UMap o;
        o["Z"] = c;
        Trace::Header y(o);
        y = std::move(x);
        vf_assert(has_pair(y, p) && !y.get("Z"), "move assignment replaces the whole content");
    } else {
        Trace::Header& r = x;
        x = r;
        vf_assert(has_pair(x, p), "assignment to itself changes nothing");
        x = std::move(r);
        vf_assert(has_pair(x, p), "assignment to itself changes nothing");
    }
    vf_cover("hdrval");
}
static void same_samples(Trace const& t, std::vector<double> const& s)
{
    vf_assert(t.samples().size() == s.size(), "a trace has the samples it was made with");
    vf_forall(s.size(), [&](uint64_t i) {
        vf_assert(vf_bits(t.samples()[i]) == vf_bits(s[i]), "a trace has the samples it was made with");
    });
}
// traces are values; cfg as above, 5: as constructed
extern "C" void h_trcval(int cfg)
{
    Pair p;
    Value c = val("c");
    uint64_t n = vf_u32("n_samp");
    std::vector<double> s = smp("smp", n);
    Trace x(p.m, s);
    if (cfg == 0) {
        Trace y(x);
        same_samples(y, s);
        same_samples(x, s);
        vf_assert(has_pair(y.header(), p) && has_pair(x.header(), p), "a copy has the content of the original");
        y.header().set("A", c);
        vf_assert(has_pair(x.header(), p) && is(y.header(), "A", c), "changing a copy leaves the original alone");
    } else if (cfg == 1 || cfg == 3) {
        UMap o;
        o["Z"] = c;
        uint64_t k = vf_u32("n_other");
        Trace y(o, smp("oth", k));
        if (cfg == 1) {
            y = x;
            same_samples(x, s);
            y.header().set("A", c);
            vf_assert(has_pair(x.header(), p), "changing an assigned trace leaves the original alone");
            y.header().set("A", p.a);
        } else {
            y = std::move(x);
        }
        same_samples(y, s);
        vf_assert(has_pair(y.header(), p) && !y.header().get("Z"), "assignment replaces the whole content");
    } else if (cfg == 2) {
        Trace y(std::move(x));
        same_samples(y, s);
        vf_assert(has_pair(y.header(), p), "a moved trace keeps its content");
    } else if (cfg == 4) {
        Trace& r = x;
        x = r;
        x = std::move(r);
        same_samples(x, s);
        vf_assert(has_pair(x.header(), p), "assignment to itself changes nothing");
    } else {
        same_samples(x, s);
        vf_assert(has_pair(x.header_const(), p), "a trace has the header it was made with");
        x.header().set("A", c);
        vf_assert(is(x.header_const(), "A", c), "both header accessors show the same header");
    }
    vf_cover("trcval");
}

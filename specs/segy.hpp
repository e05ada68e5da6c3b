// Shared vocabulary of the SEG-Y harnesses: building input files and the sample oracle, both
// written from the SEG-Y standard, not from the code.
#pragma once
#include "vf.hpp"
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "ISEGY.hpp"
#include "Trace.hpp"
#include <exception>
#include <map>
#include <variant>

namespace sg {
using namespace sedaman;
using VT = Trace::Header::ValueType;
using Map = std::map<uint32_t, std::pair<std::string, VT>>;
using Maps = std::vector<std::pair<std::string, Map>>;

// byte order: 0 big endian (field 0), 1 big endian (field set), 2 little endian
inline void put(int64_t h, uint64_t off, uint64_t v, int n, bool le)
{
    if (le)
        vf_fput_le(h, off, v, n);
    else
        vf_fput_be(h, off, v, n);
}
inline uint64_t get(int64_t h, uint64_t off, int n, bool le)
{
    return le ? vf_fle(h, off, n) : vf_fbe(h, off, n);
}
inline int64_t sx(uint64_t v, int n)
{
    return int64_t(v << (64 - 8 * n)) >> (64 - 8 * n);
}
inline bool set_order(int64_t h, int order)
{
    static unsigned char const v[3][4] = { { 0, 0, 0, 0 }, { 1, 2, 3, 4 }, { 4, 3, 2, 1 } };
    for (unsigned i = 0; i < 4; ++i)
        vf_fput(h, 3296 + i, v[order][i]);
    return order == 2;
}
inline int bps(int fmt)
{
    switch (fmt) {
    case 1: case 2: case 5: case 10: return 4;
    case 3: case 11: return 2;
    case 6: case 9: case 12: return 8;
    case 7: case 15: return 3;
    case 8: case 16: return 1;
    }
    return 0;
}
// exact value of a hexadecimal (IBM) float
inline double ibm(uint32_t b)
{
    int e = int(b >> 24 & 0x7f) - 64;
    double m = double(b & 0xffffff);
    return ldexp(b >> 31 ? -m : m, 4 * e - 24);
}
// does a decoded sample equal the stored bytes under the format?
inline bool sample_ok(double s, uint64_t raw, int fmt)
{
    int n = bps(fmt);
    switch (fmt) {
    case 1:
        return s == ibm(uint32_t(raw));
    case 5: {
        float f;
        uint32_t b = uint32_t(raw);
        memcpy(&f, &b, 4);
        double d = f;
        return vf_bits(s) == vf_bits(d) || (s != s && d != d);
    }
    case 6:
        return vf_bits(s) == raw;
    case 2: case 3: case 7: case 8: case 9:
        return s == double(sx(raw, n));
    default:
        return s == double(raw);
    }
}
struct Hdr {
    int order = 0;
    int fmt = 5;
    unsigned major = 0, minor = 0;
    uint16_t ns = 0;
    uint32_t ext_ns = 0;
    int fixed = 0;
    int ext_text = 0;
    int32_t max_add = 0;
    uint64_t ntr = 0, off = 0;
    int32_t stanzas = 0;
};
// pokes the binary header fields that steer the reader; every other byte stays arbitrary
inline bool head(int64_t h, Hdr const& d)
{
    bool le = set_order(h, d.order);
    put(h, 3220, d.ns, 2, le);
    put(h, 3224, uint64_t(d.fmt), 2, le);
    put(h, 3268, d.ext_ns, 4, le);
    vf_fput(h, 3500, uint8_t(d.major));
    vf_fput(h, 3501, uint8_t(d.minor));
    put(h, 3502, uint64_t(d.fixed), 2, le);
    put(h, 3504, uint64_t(int64_t(d.ext_text)), 2, le);
    if (d.major > 1) {
        put(h, 3506, uint64_t(int64_t(d.max_add)), 4, le);
        put(h, 3512, d.ntr, 8, le);
        put(h, 3520, d.off, 8, le);
        put(h, 3528, uint64_t(int64_t(d.stanzas)), 4, le);
    }
    return le;
}
inline Maps no_map()
{
    return Maps { { "SEG00000", Map {} } };
}
} // namespace sg

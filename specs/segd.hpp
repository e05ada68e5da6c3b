// Shared vocabulary of the SEG-D harnesses: files are built and fields located from the SEG-D
// standard (revisions 1, 2.1 and 3.0), not from the code.
#pragma once
#include "vf.hpp"
#include "CommonSEGD.hpp"
#include "Exception.hpp"
#include "ISEGD.hpp"
#include "Trace.hpp"
#include <exception>
#include <map>
#include <variant>

namespace sd {
using namespace sedaman;
using VT = Trace::Header::ValueType;
using Map = std::map<uint32_t, std::pair<std::string, VT>>;
using Maps = std::vector<Map>;

inline int64_t sx(uint64_t v, int n)
{
    return int64_t(v << (64 - 8 * n)) >> (64 - 8 * n);
}
inline unsigned nib(int64_t h, uint64_t at, unsigned i)
{
    uint8_t b = vf_fbyte(h, at + i / 2);
    return i % 2 ? b & 15u : unsigned(b) >> 4;
}
// n decimal digits, one per nibble, from nibble i after byte at on
inline uint64_t bcd(int64_t h, uint64_t at, unsigned i, unsigned n)
{
    uint64_t v = 0;
    for (unsigned k = 0; k < n; ++k)
        v = v * 10 + nib(h, at, i + k);
    return v;
}
inline uint8_t dec2(unsigned v) { return v == 165 ? 0xff : uint8_t(v / 10 << 4 | v % 10); }
inline uint64_t be(int64_t h, uint64_t at, int n) { return vf_fbe(h, at, n); }

struct Lay {
    int fmt = 8058;
    unsigned rev = 0; // major revision, meaningful with additional blocks
    unsigned add = 0; // additional general header blocks
    unsigned st = 1, cs = 1;
    unsigned skew = 0, extd = 0, extl = 0;
    bool ff = false; // numbers given in general header 2
    // results
    int64_t h = 0;
    uint64_t ch = 0, chsize = 0, at_extd = 0, at_extl = 0, data = 0;
    uint64_t chset(unsigned s, unsigned c) const { return ch + s * (cs * chsize + 32ull * skew) + c * chsize; }
};
// the size of everything before the traces
inline void plan(Lay& l)
{
    l.chsize = l.add && l.rev > 2 ? 96 : 32;
    l.ch = 32 + 32ull * l.add;
    l.at_extd = l.ch + l.st * (l.cs * l.chsize + 32ull * l.skew);
    l.at_extl = l.at_extd + 32ull * l.extd;
    l.data = l.at_extl + 32ull * l.extl;
}
// pokes what steers the reader; every other byte stays arbitrary
inline void steer(Lay& l, uint64_t at = 0)
{
    int64_t h = l.h;
    vf_fput(h, at + 2, uint8_t(l.fmt / 1000 << 4 | l.fmt / 100 % 10));
    vf_fput(h, at + 3, uint8_t(l.fmt / 10 % 10 << 4 | l.fmt % 10));
    bool many = l.ff && l.rev > 2;
    vf_fput(h, at + 11, uint8_t((many ? 15 : l.add) << 4 | (vf_fbyte(h, at + 11) & 15)));
    vf_fput(h, at + 27, dec2(l.st));
    vf_fput(h, at + 28, l.ff ? 0xff : dec2(l.cs));
    vf_fput(h, at + 29, many ? 0xff : dec2(l.skew));
    vf_fput(h, at + 30, l.ff ? 0xff : dec2(l.extd));
    vf_fput(h, at + 31, l.ff ? 0xff : dec2(l.extl));
    if (l.add) {
        vf_fput(h, at + 42, uint8_t(l.rev));
        if (l.ff) {
            vf_fput_be(h, at + 35, l.cs, 2);
            if (l.rev < 3) {
                vf_fput_be(h, at + 37, l.extd, 2);
                vf_fput_be(h, at + 39, l.extl, 2);
            } else {
                vf_fput_be(h, at + 37, l.extd, 3);
                vf_fput_be(h, at + 40, l.skew, 2);
                vf_fput_be(h, at + 54, l.add, 2);
                vf_fput_be(h, at + 59, l.extl, 3);
            }
        }
    }
}
inline void make(Lay& l, uint64_t more = 0)
{
    plan(l);
    l.h = vf_fnew("in.sgd", l.data + more);
    steer(l);
}
} // namespace sd

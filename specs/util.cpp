#include "vf.hpp"
#include "util.hpp"
using namespace sedaman;

// ---- byte-order primitives
template <class T>
static void swap_laws()
{
    uint64_t b = vf_u64("bits");
    T v;
    memcpy(&v, &b, sizeof v);
    T s = sedaman::swap(v);
    unsigned char x[sizeof(T)], y[sizeof(T)];
    memcpy(x, &v, sizeof v);
    memcpy(y, &s, sizeof s);
    for (unsigned i = 0; i < sizeof(T); ++i)
        vf_assert(x[i] == y[sizeof(T) - 1 - i], "byte swap reverses the bytes");
}
extern "C" void h_swap(int)
{
    swap_laws<uint16_t>();
    swap_laws<int16_t>();
    swap_laws<uint32_t>();
    swap_laws<int32_t>();
    swap_laws<uint64_t>();
    swap_laws<int64_t>();
    swap_laws<double>();
    vf_cover("swap");
}

// ---- BCD: cfg = digits*2 + skip
template <class T>
static void bcd_round(int num, bool skip)
{
    uint64_t lim = 1;
    for (int i = 0; i < num; ++i)
        lim *= 10;
    uint64_t v = vf_u64("v");
    vf_assume(v < lim);
    if (sizeof(T) < 8)
        vf_assume(v < (1ull << (8 * sizeof(T) - 1)));
    char buf[16];
    for (int i = 0; i < 16; ++i)
        buf[i] = 0;
    if (skip)
        buf[4] = char(vf_u8("hi") & 0xf0);
    char keep = buf[4];
    char* p = buf + 4;
    to_bcd<T>(&p, T(v), skip, num);
    int full = (num + skip) / 2;
    vf_assert(p == buf + 4 + full, "BCD encoder advances over the digits written");
    if (skip)
        vf_assert(((buf[4] ^ keep) & 0xf0) == 0, "BCD encoder keeps the half byte before the number");
    // decimal digits, most significant first
    uint64_t t = 0;
    int pos = skip ? 1 : 0;
    for (int i = 0; i < num; ++i, ++pos) {
        unsigned d = pos & 1 ? unsigned(buf[4 + pos / 2]) & 15 : (unsigned(buf[4 + pos / 2]) >> 4) & 15;
        vf_assert(d <= 9, "BCD digit is decimal");
        t = t * 10 + d;
    }
    vf_assert(t == v, "BCD digits spell the number");
    vf_assert(buf[3] == 0 && buf[4 + (num + skip + 1) / 2] == 0, "BCD encoder stays inside its bytes");
    char const* q = buf + 4;
    T r = from_bcd<T>(&q, skip, num);
    vf_assert(r == T(v), "BCD decode inverts encode");
    vf_assert(q == buf + 4 + full, "BCD decoder advances over the digits read");
    vf_cover("bcd");
}
extern "C" void h_bcd16(int cfg) { bcd_round<uint16_t>(cfg / 2, cfg & 1); }
extern "C" void h_bcd32(int cfg) { bcd_round<int>(cfg / 2, cfg & 1); }

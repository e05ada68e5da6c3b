// Harness vocabulary.  Under the verifier (VF_SYMBOLIC) every input is arbitrary and every
// vf_assert is a proof obligation; natively (replay of a counterexample, or the bounded
// fallback) inputs come from a file or a generator and files live in a scratch directory.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <cmath>

extern "C" {
uint64_t vf_nondet(char const* name, int bits);
void vf_assume(bool);
void vf_assert(bool, char const* label);
void vf_cover(char const* label);
// file with arbitrary content; size in bytes
int64_t vf_fnew(char const* name, uint64_t size);
int64_t vf_fget(char const* name); // handle of an existing file, -1 if absent
uint64_t vf_fsize(int64_t h);
uint8_t vf_fbyte(int64_t h, uint64_t off);
void vf_fput(int64_t h, uint64_t off, uint8_t v);
void vf_fzero(int64_t h, uint64_t off, uint64_t n);
char const* vf_root(void); // prefix of every path handed to the library
bool vf_symbolic(void);
// the decimal digits of a number
unsigned long vf_declen(unsigned long);
unsigned char vf_decchar(unsigned long, unsigned long);
void vf_fcopy(int64_t h, uint64_t off, char* to, uint64_t n);
}

inline uint8_t vf_u8(char const* n) { return uint8_t(vf_nondet(n, 8)); }
inline uint16_t vf_u16(char const* n) { return uint16_t(vf_nondet(n, 16)); }
inline uint32_t vf_u32(char const* n) { return uint32_t(vf_nondet(n, 32)); }
inline uint64_t vf_u64(char const* n) { return vf_nondet(n, 64); }
inline bool vf_bool(char const* n) { return vf_nondet(n, 8) & 1; }
inline double vf_f64(char const* n)
{
    uint64_t b = vf_nondet(n, 64);
    double d;
    memcpy(&d, &b, 8);
    return d;
}
inline std::string vf_path(char const* n) { return std::string(vf_root()) + n; }

// string of arbitrary content and the given length
inline std::string vf_string(char const* n, uint64_t len)
{
    int64_t h = vf_fnew(n, len);
    std::string s(len, ' ');
    vf_fcopy(h, 0, s.data(), len);
    return s;
}
// for every i < n
template <class F>
inline void vf_forall(uint64_t n, F f)
{
    if (vf_symbolic()) {
        uint64_t i = vf_nondet("idx", 64);
        if (i < n)
            f(i);
    } else {
        for (uint64_t i = 0; i < n; ++i)
            f(i);
    }
}

inline uint64_t vf_fbe(int64_t h, uint64_t off, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i)
        v = v << 8 | vf_fbyte(h, off + uint64_t(i));
    return v;
}
inline uint64_t vf_fle(int64_t h, uint64_t off, int n)
{
    uint64_t v = 0;
    for (int i = n - 1; i >= 0; --i)
        v = v << 8 | vf_fbyte(h, off + uint64_t(i));
    return v;
}
inline void vf_fput_be(int64_t h, uint64_t off, uint64_t v, int n)
{
    for (int i = n - 1; i >= 0; --i) {
        vf_fput(h, off + uint64_t(i), uint8_t(v));
        v >>= 8;
    }
}
inline void vf_fput_le(int64_t h, uint64_t off, uint64_t v, int n)
{
    for (int i = 0; i < n; ++i) {
        vf_fput(h, off + uint64_t(i), uint8_t(v));
        v >>= 8;
    }
}
inline uint64_t vf_bits(double d)
{
    uint64_t b;
    memcpy(&b, &d, 8);
    return b;
}

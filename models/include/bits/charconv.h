// Contract model of libstdc++'s decimal output of integers, used for verification only: the digits
// of a number are an uninterpreted function of it, its real digits for a constant.
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <ext/numeric_traits.h>
#include <type_traits>
extern "C" unsigned long vf_declen(unsigned long);
extern "C" unsigned char vf_decchar(unsigned long, unsigned long);
namespace std {
namespace __detail {
    template <typename T>
    constexpr bool __integer_to_chars_is_unsigned = !__gnu_cxx::__int_traits<T>::__is_signed;
    template <typename T>
    unsigned __to_chars_len(T v, int base = 10) noexcept
    {
        if (base == 10)
            return unsigned(vf_declen(v));
        unsigned n = 1;
        while (v >= T(base)) {
            v /= T(base);
            ++n;
        }
        return n;
    }
    template <typename T>
    void __to_chars_10_impl(char* to, unsigned len, T v) noexcept
    {
        char d[24];
        for (unsigned i = 0; i < 20; ++i)
            d[i] = char(vf_decchar(v, i));
        __builtin_memcpy(to, d, len);
    }
}
}
#endif

#pragma once
#ifdef SX_SYMBOLIC
// std::to_chars in base 16 takes the number of digits from the bit width: one path per number of digits instead of a symbolic position.
#include <bit>
#include <type_traits>
namespace std {
template <typename T> constexpr unsigned sx_bit_width(T v) noexcept
{
    if (__builtin_is_constant_evaluated()) return (unsigned)std::__bit_width(v);
    unsigned n = 4; while (n < 8 * sizeof(T) && (v >> n) != 0) n += 4;
    return n; // rounded up to a multiple of four, which gives the same number of hexadecimal digits
}
} // namespace std
#define __bit_width sx_bit_width
#include <charconv>
#undef __bit_width
#endif
#include <iostream>

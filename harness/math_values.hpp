// Generated numbers, and comparisons of numbers, for the harnesses of xme::math
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <compare>
#include <concepts>
#include <limits>
#include <type_traits>

using pbt::Case;
using ld = long double;

template<typename T>
const char* type_name() {
    if constexpr(std::is_same_v<T, float>) return "float";
    else if constexpr(std::is_same_v<T, double>) return "double";
    else if constexpr(std::is_same_v<T, long double>) return "long double";
    else if constexpr(std::is_same_v<T, bool>) return "bool";
    else if constexpr(std::is_same_v<T, signed char>) return "signed char";
    else if constexpr(std::is_same_v<T, unsigned char>) return "unsigned char";
    else if constexpr(std::is_same_v<T, short>) return "short";
    else if constexpr(std::is_same_v<T, int>) return "int";
    else if constexpr(std::is_same_v<T, unsigned>) return "unsigned";
    else if constexpr(std::is_same_v<T, long> || std::is_same_v<T, long long>) return "long";
    else return "number";
}

namespace num {
template<typename T>
auto printable(T v) {
    if constexpr(sizeof(T) == 1)
        return static_cast<int>(v);
    else
        return v;
}

//! A number with some significant digits and an exponent between -e and e; never 0 unless chosen to be
template<typename T>
T real(Case& c, int e = 8) {
    static_assert(std::is_floating_point_v<T>);
    switch(c.draw(8)) {
    case 0: return T(0);
    case 1: return T(1);
    case 2: return T(-1);
    case 3: return static_cast<T>(c.range(-20, 20));
    case 4: return static_cast<T>(c.range(-64, 64)) / T(8);
    default: {
        const T m = static_cast<T>(1) + static_cast<T>(static_cast<ld>(c.bits()) / 18446744073709551616.0L);
        const T s = std::ldexp(m, static_cast<int>(c.range(-e, e)));
        return c.draw(2) ? -s : s;
    }
    }
}

//! A positive number between 2^-e and 2^(e+1)
template<typename T>
T positive(Case& c, int e = 4) {
    const T r = std::abs(real<T>(c, e));
    return r == 0 ? T(1) : r;
}

template<typename T>
T in(Case& c, T lo, T hi) {
    const ld u = static_cast<ld>(c.draw((pbt::u64(1) << 32))) / 4294967295.0L;
    return static_cast<T>(lo + (hi - lo) * u);
}

//! Any value of the type, the special ones included
template<typename T>
T any(Case& c) {
    using L = std::numeric_limits<T>;
    if constexpr(std::is_same_v<T, bool>)
        return c.draw(2) != 0;
    else if constexpr(std::is_floating_point_v<T>) {
        switch(c.draw(16)) {
        case 0: return T(0);
        case 1: return T(1);
        case 2: return -T(0);
        case 3: return L::quiet_NaN();
        case 4: return L::infinity();
        case 5: return -L::infinity();
        case 6: return L::denorm_min();
        case 7: return L::max();
        case 8: return L::lowest();
        case 9: return L::min();
        default: return real<T>(c, 30);
        }
    }
    else {
        switch(c.draw(8)) {
        case 0: return T(0);
        case 1: return T(1);
        case 2: return static_cast<T>(-1);
        case 3: return L::max();
        case 4: return L::min();
        case 5: return static_cast<T>(c.range(-20, 20));
        case 6: return static_cast<T>(c.range(-30000, 30000));
        default: return static_cast<T>(c.bits());
        }
    }
}

//! Small: exact in every type, also negative where the type has negative numbers
template<typename T>
T small(Case& c, int m = 9) {
    if constexpr(std::is_same_v<T, bool>)
        return c.draw(2) != 0;
    else if constexpr(std::is_unsigned_v<T>)
        return static_cast<T>(c.range(0, m));
    else {
        const T v = static_cast<T>(c.draw(m + 1));
        return c.draw(2) ? static_cast<T>(-v) : v;
    }
}

//! Same number: not told apart are the two zeros, and NaNs
template<typename T>
bool same(T a, T b) {
    return a == b || (a != a && b != b);
}

//! Is got the wanted value up to k roundings of a value of the given size?
template<typename T>
bool near(T got, ld want, ld size, ld k = 8) {
    if(!(got == got) || std::isinf(static_cast<ld>(got)))
        return false;
    const ld tolerance = k * (static_cast<ld>(std::numeric_limits<T>::epsilon()) * std::abs(size) +
                              static_cast<ld>(std::numeric_limits<T>::min()));
    return std::abs(static_cast<ld>(got) - want) <= tolerance;
}

//! -1, 0, 1, or 2 for unordered
template<typename O>
int order(O o) {
    if(o < 0) return -1;
    if(o > 0) return 1;
    if(o == 0) return 0;
    return 2;
}
template<typename T>
int order_of(T a, T b) {
    return a < b ? -1 : b < a ? 1 : a == b ? 0 : 2;
}
}  // namespace num

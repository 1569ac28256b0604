// Generated values of many types, for the harnesses of product types
#pragma once
#include "elements.hpp"
#include <array>
#include <bit>
#include <compare>
#include <limits>
#include <string>
#include <type_traits>

struct EmptyA {
    friend bool operator==(EmptyA, EmptyA) = default;
    friend auto operator<=>(EmptyA, EmptyA) = default;
};
struct EmptyB {
    friend bool operator==(EmptyB, EmptyB) = default;
    friend auto operator<=>(EmptyB, EmptyB) = default;
};
enum class Colour : unsigned char { red, green, blue };
using Tr = el::Tracked<el::copyable>;
using Mo = el::Tracked<el::move_only>;

//! Val<T>: generation, and identity of values (stricter than ==: distinguishes -0.0 from 0.0)
template<typename T>
struct Val {
    static T make(Case& c) {
        if constexpr(std::is_same_v<T, bool>)
            return c.draw(2) != 0;
        else if constexpr(std::is_enum_v<T>)
            return static_cast<T>(c.draw(3));
        else if constexpr(std::is_empty_v<T>)
            return T{};
        else if constexpr(std::is_pointer_v<T>) {
            static std::remove_pointer_t<T> pool[8];
            return pool + c.draw(8);
        }
        else if constexpr(std::is_floating_point_v<T>) {
            using L = std::numeric_limits<T>;
            switch(c.draw(12)) {
            case 0: return T(0);
            case 1: return T(1);
            case 2: return T(-1);
            case 3: return -T(0);
            case 4: return L::quiet_NaN();
            case 5: return L::infinity();
            case 6: return -L::infinity();
            case 7: return L::denorm_min();
            case 8: return L::max();
            case 9: return T(0.5);
            case 10: return T(1) + L::epsilon();
            default: return static_cast<T>(c.range(-1000, 1000)) / T(7);
            }
        }
        else if constexpr(std::is_integral_v<T>) {
            using L = std::numeric_limits<T>;
            switch(c.draw(8)) {
            case 0: return T(0);
            case 1: return T(1);
            case 2: return T(2);
            case 3: return L::max();
            case 4: return L::min();
            case 5: return static_cast<T>(-1);
            case 6: return static_cast<T>(c.draw(5));
            default: return static_cast<T>(c.bits());
            }
        }
        else if constexpr(std::is_same_v<T, std::string>) {
            std::string s;
            for(u64 n = c.pick<u64>({0, 1, 2, 3, 20, 40}); n > 0; --n)
                s += static_cast<char>("ab\0\xff"[c.draw(c.draw(3) ? 2 : 4)]);
            return s;
        }
        else
            return el::Elem<T>::make(static_cast<int>(c.draw(4)));
    }

    static bool same(const T& a, const T& b) {
        if constexpr(std::is_floating_point_v<T>) {
            if(a != a || b != b)
                return a != a && b != b;
            return a == b && std::signbit(a) == std::signbit(b);
        }
        else if constexpr(requires { a == b; })
            return a == b;
        else
            return std::memcmp(&a, &b, sizeof(T)) == 0;
    }

    //! a copy to compare with later, also of what can't be copied
    static T clone(const T& a) {
        if constexpr(std::is_copy_constructible_v<T>)
            return a;
        else
            return el::Elem<T>::make(el::Elem<T>::read(a));
    }

    static void show(std::ostream& os, const T& a) {
        if constexpr(std::is_enum_v<T>)
            os << static_cast<int>(a);
        else if constexpr(std::is_empty_v<T>)
            os << "{}";
        else if constexpr(std::is_same_v<T, std::string>)
            os << '"' << a << '"';
        else if constexpr(requires { os << +a; })
            os << +a;
        else
            os << el::Elem<T>::read(a);
    }
};

template<typename T>
inline std::string show(const T& a) {
    std::ostringstream os;
    Val<T>::show(os, a);
    return os.str();
}
template<typename T>
inline bool same(const T& a, const T& b) {
    return Val<T>::same(a, b);
}
template<typename T>
inline T clone(const T& a) {
    return Val<T>::clone(a);
}

//! As a number, so that orderings of different categories can be compared
template<typename O>
inline int as_int(O o) {
    return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 2;  // 2: unordered
}

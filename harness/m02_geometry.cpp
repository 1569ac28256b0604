// M02: the geometric functions of vectors, against their definitions evaluated in a wider type.
#include "math_values.hpp"
#include <xme/math/vector.hpp>
#include <array>
#include <sstream>

namespace m = xme::math;

template<typename T, std::size_t N>
std::string text(const m::Vector<T, N>& v) {
    std::ostringstream o;
    o.precision(21);
    o << '(';
    for(std::size_t i = 0; i < N; ++i)
        o << (i ? ", " : "") << num::printable(v[i]);
    o << ')';
    return o.str();
}

//! Bounds that keep every sum and product of the definitions in range
template<typename T>
T component(Case& c, int kind) {
    if constexpr(std::is_floating_point_v<T>) {
        switch(kind) {
        case 0: return num::real<T>(c, 4);
        case 1: return static_cast<T>(num::small<int>(c));
        case 2: return num::real<T>(c, sizeof(T) == 4 ? 12 : 60);
        // about the same exponent, so that terms cancel
        default: return std::ldexp(num::real<T>(c, 1), sizeof(T) == 4 ? 20 : 150);
        }
    }
    else if constexpr(sizeof(T) == 1)
        return num::small<T>(c, std::is_signed_v<T> ? 3 : 4);
    else if constexpr(sizeof(T) == 8)
        return num::small<T>(c, kind == 0 ? 9 : 10000);
    else
        return num::small<T>(c, kind == 0 ? 9 : 100);
}

template<typename T, std::size_t N>
m::Vector<T, N> vec(Case& c, int kind) {
    m::Vector<T, N> v{};
    for(std::size_t i = 0; i < N; ++i)
        v[i] = component<T>(c, kind);
    return v;
}

//! The value of a definition, and the size of the terms added up in it
struct Sum {
    ld value = 0, size = 0;
    void add(ld term) { value += term, size += std::abs(term); }
};

template<typename T, std::size_t N>
Sum sum(const m::Vector<T, N>& a, const m::Vector<T, N>& b) {
    Sum s;
    for(std::size_t i = 0; i < N; ++i)
        s.add(static_cast<ld>(a[i]) * static_cast<ld>(b[i]));
    return s;
}

template<typename T>
void expect(T got, const Sum& s, const char* what, const std::string& where) {
    if constexpr(std::is_floating_point_v<T>)
        CHECK(num::near(got, s.value, s.size, 16), what << " of " << where << " is " << got << " instead of " << s.value);
    else
        CHECK(static_cast<ld>(got) == s.value, what << " of " << where << " is " << num::printable(got) << " instead of " << s.value);
}

template<typename T, std::size_t N>
void geometry(Case& c) {
    using V        = m::Vector<T, N>;
    const int kind = static_cast<int>(c.draw(4));
    const V a      = vec<T, N>(c, kind);
    V b            = vec<T, N>(c, kind);
    switch(c.draw(8)) {
    case 0: b = a; break;
    case 1:
        if constexpr(std::is_signed_v<T>)
            b = -a;
        break;
    case 2: {  // differ in one component only
        const std::size_t i = c.draw(N);
        const T x           = b[i];
        b                   = a;
        b[i]                = x;
        break;
    }
    default: break;
    }
    const std::string where = text(a) + ", " + text(b);
    LOG("Vector<" << type_name<T>() << ", " << N << ">: " << where);
    const Sum ab = sum(a, b), aa = sum(a, a), bb = sum(b, b);

    expect(m::dot(a, b), ab, "dot", where);
    expect(m::dot(b, a), ab, "dot", where);
    expect(m::dot(a, a), aa, "dot", where);

    auto member = a.length();
    if constexpr(std::is_floating_point_v<decltype(member)>)
        CHECK(num::near(member, std::sqrt(aa.value), std::sqrt(aa.value), 16), "length() of " << where << " is " << member);
    else {
        const ld l = std::floor(std::sqrt(aa.value));
        CHECK(static_cast<ld>(member) == l, "length() of " << where << " is " << num::printable(member));
    }

    if constexpr(std::is_floating_point_v<T>) {
        const ld len = std::sqrt(aa.value);
        CHECK(num::near(m::length(a), len, len, 16), "length of " << where << " is " << m::length(a));

        Sum d2;
        for(std::size_t i = 0; i < N; ++i) {
            const ld d = static_cast<ld>(b[i]) - static_cast<ld>(a[i]);
            d2.add(d * d);
        }
        const ld far = std::sqrt(d2.value);
        CHECK(num::near(m::distance(a, b), far, far, 16), "distance of " << where << " is " << m::distance(a, b));
        CHECK(num::near(m::distance(b, a), far, far, 16), "distance of " << where << " is " << m::distance(b, a));
        if(len > 0) {
            const V n1 = m::normalize(a), n2 = a.normalize();
            for(std::size_t i = 0; i < N; ++i) {
                const ld want = static_cast<ld>(a[i]) / len;
                CHECK(num::near(n1[i], want, want, 24), "normalize of " << where << " is " << text(n1));
                CHECK(num::near(n2[i], want, want, 24), "normalize() of " << where << " is " << text(n2));
            }
        }
    }

    if constexpr(std::is_signed_v<T>) {
        const V r = m::reflect(a, b);
        for(std::size_t i = 0; i < N; ++i) {
            Sum s;
            s.add(static_cast<ld>(a[i]));
            s.add(-2 * ab.value * static_cast<ld>(b[i]));
            s.size += 2 * ab.size * std::abs(static_cast<ld>(b[i]));
            if constexpr(sizeof(T) > 1)
                expect(r[i], s, "reflect", where);
        }

        const V v       = vec<T, N>(c, 0);
        const bool away = std::is_floating_point_v<T>
                            ? std::abs(ab.value) > 64 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * ab.size
                            : ab.value != 0;
        if(away && (std::is_integral_v<T> || ab.size < 1e30L)) {
            const V f = m::faceforward(v, a, b);
            const V w = ab.value < 0 ? v : -v;
            for(std::size_t i = 0; i < N; ++i)
                CHECK(f[i] == w[i], "faceforward(" << text(v) << ", " << where << ") is " << text(f));
            c.label("faceforward");
        }
    }

    if constexpr(N == 3) {
        const V x = m::cross(a, b);
        for(std::size_t i = 0; i < 3; ++i) {
            const std::size_t j = (i + 1) % 3, k = (i + 2) % 3;
            Sum s;
            s.add(static_cast<ld>(a[j]) * static_cast<ld>(b[k]));
            s.add(-static_cast<ld>(a[k]) * static_cast<ld>(b[j]));
            if(std::is_signed_v<T> || s.value >= 0)
                expect(x[i], s, "cross", where);
        }
    }
    if(aa.value > 0 && bb.value > 0 && ab.value != 0 && ab.value != aa.value)
        c.nontrivial();
    c.label(type_name<T>());
}

#define TYPES(T, name)                                \
    SUB_T(name##_2, (geometry<T, 2>), 15000, 500000); \
    SUB_T(name##_3, (geometry<T, 3>), 15000, 500000); \
    SUB_T(name##_4, (geometry<T, 4>), 15000, 500000); \
    SUB_T(name##_5, (geometry<T, 5>), 10000, 500000)
TYPES(float, float);
TYPES(double, double);
TYPES(long double, ldouble);
TYPES(int, int);
TYPES(long long, long);
SUB_T(unsigned_3, (geometry<unsigned, 3>), 5000, 100000);
SUB_T(unsigned_4, (geometry<unsigned, 4>), 5000, 100000);
SUB_T(float_1, (geometry<float, 1>), 5000, 100000);
SUB_T(float_8, (geometry<float, 8>), 5000, 100000);
SUB_T(double_7, (geometry<double, 7>), 5000, 100000);
SUB_T(int_6, (geometry<int, 6>), 5000, 100000);
SUB_T(schar_2, (geometry<signed char, 2>), 5000, 100000);
SUB_T(schar_3, (geometry<signed char, 3>), 5000, 100000);
SUB_T(schar_4, (geometry<signed char, 4>), 5000, 100000);
SUB_T(schar_5, (geometry<signed char, 5>), 5000, 100000);

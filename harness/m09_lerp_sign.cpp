// M09: lerp and its alias mix, and sign.
#include "math_values.hpp"
#include <xme/math/vector.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <sstream>

namespace m = xme::math;

template<typename T, std::size_t N>
std::string text(const m::Vector<T, N>& v) {
    std::ostringstream o;
    o.precision(21);
    for(std::size_t i = 0; i < N; ++i)
        o << (i ? ", " : "(") << num::printable(v[i]);
    o << ')';
    return o.str();
}

//! Any finite value
template<typename T>
T finite(Case& c) {
    switch(c.draw(8)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return std::numeric_limits<T>::denorm_min();
    default: return num::real<T>(c, 30);
    }
}

template<typename U>
U percentage(Case& c) {
    if constexpr(std::is_same_v<U, bool>)
        return c.draw(2) != 0;
    else if constexpr(std::is_integral_v<U>)
        switch(c.draw(3)) {
        case 0: return static_cast<U>(0);
        case 1: return static_cast<U>(1);
        default: return num::small<U>(c, 30);
        }
    else
        switch(c.draw(6)) {
        case 0: return U(0);
        case 1: return U(1);
        case 2: return static_cast<U>(c.range(0, 16)) / U(16);
        case 3: return num::real<U>(c, 4);
        default: return num::in<U>(c, U(0), U(1));
        }
}

template<typename T, typename U, std::size_t N>
void check(const m::Vector<T, N>& r, const m::Vector<T, N>& a, const m::Vector<T, N>& b, std::size_t i, U t, const char* what) {
    auto where = [&] {
        std::ostringstream o;
        o.precision(21);
        o << what << '(' << text(a) << ", " << text(b) << ") by (" << type_name<U>() << ") " << num::printable(t)
          << " in component " << i << " is " << text(r);
        return o.str();
    };
    if constexpr(std::is_same_v<U, bool>)
        CHECK(num::same(r[i], t ? b[i] : a[i]), where());
    else if(t == static_cast<U>(0))
        CHECK(r[i] == a[i], where());
    else if(t == static_cast<U>(1))
        CHECK(r[i] == b[i], where());
    else {
        const ld x = static_cast<ld>(a[i]), y = static_cast<ld>(b[i]), p = static_cast<ld>(t);
        CHECK(num::near(r[i], x * (1 - p) + y * p, std::abs(x) * (1 + std::abs(p)) + std::abs(y * p), 8), where());
    }
}

template<typename T, typename U, std::size_t N>
void interpolate(Case& c) {
    using V = m::Vector<T, N>;
    V a{}, b{};
    m::Vector<U, N> t{};
    bool ends = true;
    for(std::size_t i = 0; i < N; ++i) {
        t[i] = percentage<U>(c);
        ends = ends && (t[i] == static_cast<U>(0) || t[i] == static_cast<U>(1));
    }
    const U s = percentage<U>(c);
    ends      = ends && (s == static_cast<U>(0) || s == static_cast<U>(1));
    for(std::size_t i = 0; i < N; ++i) {
        // between the ends, only values whose products stay in range
        a[i] = std::is_same_v<U, bool> ? num::any<T>(c) : ends ? finite<T>(c) : num::real<T>(c, 8);
        b[i] = std::is_same_v<U, bool> ? num::any<T>(c) : ends ? finite<T>(c) : num::real<T>(c, 8);
    }
    LOG(text(a) << ' ' << text(b) << " by " << num::printable(s) << " and by " << text(t));
    const V uniform = m::lerp(a, b, s), each = m::lerp(a, b, t);
    static_assert(std::is_same_v<decltype(m::lerp(a, b, s)), V> && std::is_same_v<decltype(m::lerp(a, b, t)), V>);
    for(std::size_t i = 0; i < N; ++i) {
        check(uniform, a, b, i, s, "lerp");
        check(each, a, b, i, t[i], "lerp");
    }
    const V mixed = m::mix(a, b, s), mixed_each = m::mix(a, b, t);
    for(std::size_t i = 0; i < N; ++i) {
        CHECK(num::same(mixed[i], uniform[i]), "mix(" << text(a) << ", " << text(b) << ", " << num::printable(s) << ") is " << text(mixed));
        CHECK(num::same(mixed_each[i], each[i]), "mix(" << text(a) << ", " << text(b) << ", " << text(t) << ") is " << text(mixed_each));
    }
    c.nontrivial();
    c.label(ends ? "ends" : type_name<U>());
}

#define PERCENT(T, name, N)                                                     \
    SUB_T(name##_##N##_bool, (interpolate<T, bool, N>), 3000, 100000);          \
    SUB_T(name##_##N##_int, (interpolate<T, int, N>), 3000, 100000);            \
    SUB_T(name##_##N##_unsigned, (interpolate<T, unsigned, N>), 3000, 100000);  \
    SUB_T(name##_##N##_float, (interpolate<T, float, N>), 5000, 200000);        \
    SUB_T(name##_##N##_double, (interpolate<T, double, N>), 5000, 200000)
PERCENT(float, float, 2);
PERCENT(float, float, 3);
PERCENT(float, float, 4);
PERCENT(float, float, 5);
PERCENT(double, double, 2);
PERCENT(double, double, 3);
PERCENT(double, double, 4);
PERCENT(double, double, 7);
SUB_T(schar_3, (interpolate<float, signed char, 3>), 2000, 50000);
SUB_T(uchar_4, (interpolate<double, unsigned char, 4>), 2000, 50000);
SUB_T(ldouble_3, (interpolate<long double, long double, 3>), 2000, 50000);
SUB_T(one_1, (interpolate<float, float, 1>), 2000, 50000);

template<typename T>
int sign_of(T v) {
    return v < 0 ? -1 : v > 0 ? 1 : 0;
}

template<typename T, std::size_t N>
void signs_of_vector(Case& c) {
    m::Vector<T, N> v{};
    for(std::size_t i = 0; i < N; ++i)
        do
            v[i] = num::any<T>(c);
        while(v[i] != v[i] && !c.exhausted());
    LOG(text(v));
    const m::Vector<T, N> s = m::sign(v);
    for(std::size_t i = 0; i < N; ++i)
        CHECK(v[i] != v[i] || s[i] == static_cast<T>(sign_of(v[i])), "sign of " << text(v) << " is " << text(s));
}

template<typename T>
void signs(Case& c) {
    const T v = num::any<T>(c);
    if(v == v) {
        LOG(type_name<T>() << ' ' << num::printable(v));
        static_assert(std::is_same_v<decltype(m::sign(v)), T>);
        CHECK(m::sign(v) == static_cast<T>(sign_of(v)), "sign(" << num::printable(v) << ") is " << num::printable(m::sign(v)));
        if(v != 0)
            c.nontrivial();
    }
    signs_of_vector<T, 2>(c);
    signs_of_vector<T, 3>(c);
    signs_of_vector<T, 4>(c);
    signs_of_vector<T, 6>(c);
    c.label(type_name<T>());
}
SUB_T(sign_float, (signs<float>), 5000, 100000);
SUB_T(sign_double, (signs<double>), 5000, 100000);
SUB_T(sign_ldouble, (signs<long double>), 3000, 100000);
SUB_T(sign_int, (signs<int>), 5000, 100000);
SUB_T(sign_schar, (signs<signed char>), 5000, 100000);
SUB_T(sign_short, (signs<short>), 3000, 100000);
SUB_T(sign_long, (signs<long long>), 5000, 100000);

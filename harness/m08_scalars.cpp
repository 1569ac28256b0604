// M08: the scalar functions and the constants.
#include "math_values.hpp"
#include <xme/math/constants.hpp>
#include <xme/math/scalars/trigonometry.hpp>

namespace m = xme::math;

struct Constant {
    const char* name;
    float f, true_f;
    double d, true_d, plain;
    long double l, true_l;
};
static const Constant constants[] = {
#define CONSTANT(name, f, d, l) {#name, m::name##_v<float>, f, m::name##_v<double>, d, m::name, m::name##_v<long double>, l},
#include "constants.inc"
};

//! Each constant in each type (there are 32 constants: the number of the case enumerates them)
SUB(constants, 256, 2048) {
    const auto& k = constants[c.enumerate(std::size(constants))];
    LOG(k.name);
    CHECK(k.f == k.true_f, k.name << "_v<float> is off by " << k.f - k.true_f);
    CHECK(k.d == k.true_d, k.name << "_v<double> is off by " << k.d - k.true_d);
    CHECK(k.l == k.true_l, k.name << "_v<long double> is off by " << k.l - k.true_l);
    CHECK(k.plain == k.true_d, k.name << " is off by " << k.plain - k.true_d);
    c.nontrivial();
}

constexpr ld true_pi = 0xc90fdaa22168c235p-62L;

template<typename T>
T angle(Case& c) {
    switch(c.draw(6)) {
    case 0: return static_cast<T>(c.range(-720, 720));
    case 1: return static_cast<T>(c.range(-16, 16)) * static_cast<T>(true_pi) / T(8);
    case 2: return static_cast<T>(c.range(-16, 16)) * static_cast<T>(true_pi) / T(12);
    case 3: return num::real<T>(c, 1);
    default: return num::real<T>(c, sizeof(T) == 4 ? 60 : 300);
    }
}

template<typename T>
void trigonometry(Case& c) {
    const T x  = angle<T>(c);
    const ld w = static_cast<ld>(x), most = static_cast<ld>(std::numeric_limits<T>::max()) / 4;
    LOG(type_name<T>() << ' ' << x);
    auto is = [&](T got, ld want, const char* what) {
        if(std::abs(want) < most && std::abs(want) > 4 * static_cast<ld>(std::numeric_limits<T>::min()))
            CHECK(num::near(got, want, want, 8), what << '(' << x << ") is " << got << " instead of " << want);
    };
    if(std::abs(w) < most / 60) {
        is(m::radians(x), w * (true_pi / 180), "radians");
        is(m::degrees(x), w * (180 / true_pi), "degrees");
        is(m::degrees(m::radians(x)), w, "degrees of radians");
    }
    is(m::sec(x), 1 / std::cos(w), "sec");
    is(m::csc(x), 1 / std::sin(w), "csc");
    is(m::cot(x), 1 / std::tan(w), "cot");
    is(m::sin(x), std::sin(w), "sin");
    is(m::cos(x), std::cos(w), "cos");
    is(m::tan(x), std::tan(w), "tan");
    is(m::arctan(x), std::atan(w), "arctan");
    static_assert(std::is_same_v<decltype(m::radians(x)), T> && std::is_same_v<decltype(m::degrees(x)), T> &&
                  std::is_same_v<decltype(m::sec(x)), T> && std::is_same_v<decltype(m::csc(x)), T> &&
                  std::is_same_v<decltype(m::cot(x)), T> && std::is_same_v<decltype(m::arctan(x)), T> &&
                  std::is_same_v<decltype(m::arcsin(x)), T> && std::is_same_v<decltype(m::arccos(x)), T>);
    if(x == 0)
        CHECK(m::radians(x) == 0 && m::degrees(x) == 0 && m::sec(x) == 1 && m::arctan(x) == 0, "at 0");

    const T y  = c.draw(4) ? num::in<T>(c, T(-1), T(1)) : static_cast<T>(c.range(-8, 8)) / T(8);
    const ld v = static_cast<ld>(y);
    LOG(type_name<T>() << ' ' << y);
    CHECK(num::near(m::arcsin(y), std::asin(v), std::asin(v), 8), "arcsin(" << y << ") is " << m::arcsin(y));
    CHECK(num::near(m::arccos(y), std::acos(v), std::acos(v), 8), "arccos(" << y << ") is " << m::arccos(y));
    if(x != 0 && y != 0)
        c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(trigonometry_float, (trigonometry<float>), 40000, 2000000);
SUB_T(trigonometry_double, (trigonometry<double>), 40000, 2000000);
SUB_T(trigonometry_ldouble, (trigonometry<long double>), 20000, 500000);

//! Whole numbers are taken as doubles
template<typename T>
void whole(Case& c) {
    const T n  = std::is_signed_v<T> ? static_cast<T>(c.range(-100, 100)) : static_cast<T>(c.range(0, 200));
    const ld w = static_cast<ld>(n);
    LOG(type_name<T>() << ' ' << num::printable(n));
    auto is = [&](auto got, ld want, const char* what) {
        static_assert(std::is_same_v<decltype(got), double>);
        CHECK(num::near(got, want, want, 8), what << '(' << num::printable(n) << ") is " << got << " instead of " << want);
    };
    is(m::sec(n), 1 / std::cos(w), "sec");
    if(n != 0) {
        is(m::csc(n), 1 / std::sin(w), "csc");
        is(m::cot(n), 1 / std::tan(w), "cot");
        c.nontrivial();
    }
    is(m::arctan(n), std::atan(w), "arctan");
    const T u  = static_cast<T>(std::is_signed_v<T> ? c.range(-1, 1) : c.range(0, 1));
    const ld v = static_cast<ld>(u);
    is(m::arcsin(u), std::asin(v), "arcsin");
    is(m::arccos(u), std::acos(v), "arccos");
}
SUB_T(whole_int, (whole<int>), 3000, 20000);
SUB_T(whole_short, (whole<short>), 1000, 20000);
SUB_T(whole_unsigned, (whole<unsigned>), 1000, 20000);
SUB_T(whole_long, (whole<long long>), 1000, 20000);

// M07: quaternions form Hamilton's algebra.
#include "math_values.hpp"
#include <xme/math/quaternion.hpp>
#include <array>
#include <sstream>

namespace m = xme::math;

template<typename T>
std::string text(const m::Quaternion<T>& q) {
    std::ostringstream o;
    o.precision(21);
    o << '(' << q.w << ", " << q.x << ", " << q.y << ", " << q.z << ')';
    return o.str();
}

template<typename T>
m::Quaternion<T> make(Case& c, int kind) {
    auto one = [&]() -> T {
        switch(kind) {
        case 0: return static_cast<T>(num::small<int>(c));
        case 1: return static_cast<T>(num::small<int>(c, 1));
        case 2: return num::real<T>(c, 2);
        default: return num::real<T>(c, 10);
        }
    };
    const T w = one(), x = one(), y = one(), z = one();
    return {w, x, y, z};
}

//! Multiplication table of 1, i, j, k: unit[a][b] and the sign of the product a b
constexpr int unit[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
constexpr int sign[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};

template<typename T, typename U>
void algebra(Case& c) {
    const int kind = static_cast<int>(c.draw(4));
    const auto p   = make<T>(c, kind);
    const auto q   = make<U>(c, kind);
    LOG(text(p) << " and " << text(q));
    const std::array<T, 4> a{p.w, p.x, p.y, p.z};
    const std::array<U, 4> b{q.w, q.x, q.y, q.z};
    for(std::size_t i = 0; i < 4; ++i)
        CHECK(p[i] == a[i] && q[i] == b[i], "index " << i << " of " << text(p) << " or " << text(q));

    const auto sum = p + q, difference = p - q, product = p * q;
    static_assert(std::is_same_v<decltype(sum), const m::Quaternion<T>> &&
                  std::is_same_v<decltype(difference), const m::Quaternion<T>> &&
                  std::is_same_v<decltype(product), const m::Quaternion<T>>);
    ld want[4] = {}, size[4] = {};
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j) {
            const ld t = static_cast<ld>(a[i]) * static_cast<ld>(b[j]);
            want[unit[i][j]] += sign[i][j] * t;
            size[unit[i][j]] += std::abs(t);
        }
    for(std::size_t i = 0; i < 4; ++i) {
        const ld x = static_cast<ld>(a[i]), y = static_cast<ld>(b[i]);
        CHECK(num::near(sum[i], x + y, std::abs(x) + std::abs(y), 2), text(p) << " + " << text(q) << " = " << text(sum));
        CHECK(num::near(difference[i], x - y, std::abs(x) + std::abs(y), 2), text(p) << " - " << text(q) << " = " << text(difference));
        if(kind <= 1)
            CHECK(static_cast<ld>(product[i]) == want[i] && static_cast<ld>(sum[i]) == x + y, text(p) << " * " << text(q) << " = " << text(product));
        else
            CHECK(num::near(product[i], want[i], size[i], 12), text(p) << " * " << text(q) << " = " << text(product));
    }
    if(kind <= 1) {
        // exact in small integers: associative, distributive, norms multiply, 1 is neutral
        const auto r = make<T>(c, kind);
        CHECK((p * q) * r == p * (m::Quaternion<T>(q.w, q.x, q.y, q.z) * r), "associativity of " << text(p) << text(q) << text(r));
        CHECK(r * (p + q) == r * p + r * q, "distributivity of " << text(r) << text(p) << text(q));
        auto norm = [](auto& x) { return x.w * x.w + x.x * x.x + x.y * x.y + x.z * x.z; };
        CHECK(norm(product) == norm(p) * norm(q), "norms of " << text(p) << " and " << text(q));
        const m::Quaternion<T> one(1, 0, 0, 0);
        CHECK(one * p == p && p * one == p, "1 times " << text(p));
    }
    if(!(product == m::Quaternion<T>(static_cast<T>(0), 0, 0, 0)) && a[1] * b[2] != a[2] * b[1])
        c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(float_float, (algebra<float, float>), 20000, 500000);
SUB_T(double_double, (algebra<double, double>), 20000, 500000);
SUB_T(float_double, (algebra<float, double>), 10000, 500000);
SUB_T(double_float, (algebra<double, float>), 10000, 500000);
SUB_T(ldouble_ldouble, (algebra<long double, long double>), 10000, 300000);
SUB_T(ldouble_float, (algebra<long double, float>), 5000, 300000);

static_assert(std::is_same_v<decltype(m::Quaternion{1, 2, 3, 4}), m::Quaternion<float>>);
static_assert(std::is_same_v<decltype(m::Quaternion{1.f, 2, 3, 4}), m::Quaternion<float>>);
static_assert(std::is_same_v<decltype(m::Quaternion{1, 2., 3.f, 4}), m::Quaternion<double>>);
static_assert(std::is_same_v<decltype(m::Quaternion{1, 2, 3, 4.L}), m::Quaternion<long double>>);

template<typename T>
void components(Case& c) {
    using Q = m::Quaternion<T>;
    // made from mixed types, written through names and indices
    const int w    = num::small<int>(c, 1000);
    const float x  = num::any<float>(c);
    const double y = num::any<double>(c);
    const T z      = num::any<T>(c);
    std::array<T, 4> a{static_cast<T>(w), static_cast<T>(x), static_cast<T>(y), z};
    Q p(w, x, y, z);
    LOG(text(p));
    auto check = [&](const Q& q, const std::array<T, 4>& want) {
        CHECK(num::same(q.w, want[0]) && num::same(q.x, want[1]) && num::same(q.y, want[2]) && num::same(q.z, want[3]),
              "the components of " << text(q));
        for(std::size_t i = 0; i < 4; ++i)
            CHECK(num::same(q[i], want[i]), "index " << i << " of " << text(q));
    };
    check(p, a);
    const Q zero{};
    check(zero, {0, 0, 0, 0});
    const std::size_t k = c.draw(4);
    a[k] = num::any<T>(c);
    if(c.draw(2))
        p[k] = a[k];
    else
        (k == 0 ? p.w : k == 1 ? p.x : k == 2 ? p.y : p.z) = a[k];
    check(p, a);
    Q copy = p;
    check(copy, a);

    // comparison
    Q q;
    std::array<T, 4> b;
    const std::size_t same = c.draw(5);
    for(std::size_t i = 0; i < 4; ++i)
        q[i] = b[i] = i < same ? a[i] : num::any<T>(c);
    bool eq = true;
    int ord = 0;
    for(std::size_t i = 0; i < 4; ++i) {
        eq = eq && a[i] == b[i];
        if(ord == 0)
            ord = num::order_of(a[i], b[i]);
    }
    const Q &cp = p, &cq = q;
    LOG("compare " << text(p) << " and " << text(q));
    CHECK((cp == cq) == eq && (cp != cq) == !eq, text(p) << " == " << text(q));
    CHECK(num::order(cp <=> cq) == ord && (cp < cq) == (ord == -1), text(p) << " <=> " << text(q));
    c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(components_float, (components<float>), 10000, 300000);
SUB_T(components_double, (components<double>), 10000, 300000);

//! Sum and difference are component-wise: no component of the result depends on the others, whatever they are
template<typename T>
void special(Case& c) {
    using Q = m::Quaternion<T>;
    Q p, q;
    bool infinite = false;
    for(std::size_t i = 0; i < 4; ++i) {
        p[i]     = num::any<T>(c);
        q[i]     = num::any<T>(c);
        infinite = infinite || !std::isfinite(p[i]) || !std::isfinite(q[i]);
    }
    LOG(text(p) << " and " << text(q));
    const Q sum = p + q, difference = p - q;
    for(std::size_t i = 0; i < 4; ++i) {
        CHECK(num::same(sum[i], static_cast<T>(p[i] + q[i])), text(p) << " + " << text(q) << " = " << text(sum));
        CHECK(num::same(difference[i], static_cast<T>(p[i] - q[i])), text(p) << " - " << text(q) << " = " << text(difference));
    }
    if(infinite)
        c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(special_float, (special<float>), 10000, 300000);
SUB_T(special_double, (special<double>), 10000, 300000);

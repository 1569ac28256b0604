// M05: translate, scale and rotate multiply on the right by the affine transformation they name.
#include "math_values.hpp"
#include <xme/math/matrix.hpp>
#include <array>
#include <sstream>

namespace m = xme::math;
using Wide = std::array<std::array<ld, 4>, 4>;  // columns

template<typename T>
std::string text(const m::Matrix<T, 4, 4>& x) {
    std::ostringstream o;
    o.precision(21);
    for(std::size_t i = 0; i < 4; ++i)
        o << (i ? ", (" : "((") << x[i][0] << ", " << x[i][1] << ", " << x[i][2] << ", " << x[i][3] << ')';
    o << ')';
    return o.str();
}

template<typename T>
m::Matrix<T, 4, 4> matrix(Case& c) {
    m::Matrix<T, 4, 4> x{1};
    switch(c.draw(4)) {
    case 0: break;
    case 1:  // affine
        for(std::size_t i = 0; i < 4; ++i)
            for(std::size_t j = 0; j < 3; ++j)
                x[i][j] = num::real<T>(c, 3);
        break;
    default:
        for(std::size_t i = 0; i < 4; ++i)
            for(std::size_t j = 0; j < 4; ++j)
                x[i][j] = num::real<T>(c, 4);
    }
    return x;
}

//! got is x times the transformation t, whose entries were computed from values of size s
template<typename T>
void expect(const m::Matrix<T, 4, 4>& got, const m::Matrix<T, 4, 4>& x, const Wide& t, const Wide& s, const std::string& what) {
    for(std::size_t i = 0; i < 4; ++i)
        for(std::size_t j = 0; j < 4; ++j) {
            ld sum = 0, size = 0;
            for(std::size_t k = 0; k < 4; ++k) {
                sum += static_cast<ld>(x[k][j]) * t[i][k];
                size += std::abs(static_cast<ld>(x[k][j])) * s[i][k];
            }
            CHECK(num::near(got[i][j], sum, size, 24),
                  what << " of " << text(x) << ": entry " << i << ' ' << j << " is " << got[i][j] << " instead of " << sum);
        }
}

Wide identity() {
    Wide t{};
    for(std::size_t i = 0; i < 4; ++i)
        t[i][i] = 1;
    return t;
}
Wide sizes(const Wide& t) {
    Wide s = t;
    for(auto& col : s)
        for(auto& e : col)
            e = std::abs(e);
    return s;
}

template<typename U, typename T>
m::Vector<U, 3> vector(Case& c) {
    m::Vector<U, 3> v{};
    for(std::size_t i = 0; i < 3; ++i)
        if constexpr(std::is_integral_v<U>)
            v[i] = num::small<U>(c, 20);
        else
            v[i] = num::real<U>(c, 5);
    return v;
}

template<typename T, typename U>
void move_and_stretch(Case& c) {
    const auto x = matrix<T>(c);
    const auto v = vector<U, T>(c);
    LOG("by (" << num::printable(v[0]) << ", " << num::printable(v[1]) << ", " << num::printable(v[2]) << ") " << text(x));
    std::ostringstream by;
    by << " by (" << num::printable(v[0]) << ", " << num::printable(v[1]) << ", " << num::printable(v[2]) << ")";
    Wide t = identity();
    for(std::size_t i = 0; i < 3; ++i)
        t[3][i] = static_cast<ld>(static_cast<T>(v[i]));
    const auto moved = m::translate(x, v);
    static_assert(std::is_same_v<decltype(moved), const m::Matrix<T, 4, 4>>);
    expect(moved, x, t, sizes(t), "translate" + by.str());
    t = identity();
    for(std::size_t i = 0; i < 3; ++i)
        t[i][i] = static_cast<ld>(static_cast<T>(v[i]));
    expect(m::scale(x, v), x, t, sizes(t), "scale" + by.str());

    // a point moves by v, or stretches by v
    m::Vector<T, 3> p{};
    for(std::size_t i = 0; i < 3; ++i)
        p[i] = num::real<T>(c, 4);
    const m::Matrix<T, 4, 4> one{1};
    const auto q = m::translate(one, v) * m::Vector<T, 4>(p, 1);
    const auto s = m::scale(one, v) * m::Vector<T, 4>(p, 1);
    for(std::size_t i = 0; i < 3; ++i) {
        const ld pi = static_cast<ld>(p[i]), vi = static_cast<ld>(static_cast<T>(v[i]));
        CHECK(num::near(q[i], pi + vi, std::abs(pi) + std::abs(vi), 8), "a point translated" << by.str());
        CHECK(num::near(s[i], pi * vi, std::abs(pi * vi), 8), "a point scaled" << by.str());
    }
    CHECK(q[3] == 1 && s[3] == 1, "w of a point translated or scaled" << by.str());
    if(v[0] != 0 && v[1] != 0 && v[2] != 0 && v[0] != v[1])
        c.nontrivial();
    c.label(type_name<U>());
}
SUB_T(affine_float_float, (move_and_stretch<float, float>), 15000, 500000);
SUB_T(affine_double_double, (move_and_stretch<double, double>), 15000, 500000);
SUB_T(affine_float_double, (move_and_stretch<float, double>), 10000, 500000);
SUB_T(affine_double_float, (move_and_stretch<double, float>), 10000, 500000);
SUB_T(affine_float_int, (move_and_stretch<float, int>), 10000, 500000);
SUB_T(affine_double_schar, (move_and_stretch<double, signed char>), 10000, 500000);
SUB_T(affine_double_unsigned, (move_and_stretch<double, unsigned>), 10000, 500000);
SUB_T(affine_ldouble, (move_and_stretch<long double, long double>), 5000, 100000);

//! Rodrigues' rotation matrix about the unit axis n, its columns the images of the axes
Wide rotation(ld angle, const std::array<ld, 3>& n, Wide& size) {
    Wide t       = identity();
    size         = identity();
    const ld s   = std::sin(angle), co = std::cos(angle);
    for(std::size_t i = 0; i < 3; ++i)
        for(std::size_t k = 0; k < 3; ++k) {
            // image of axis i: cos e_i + (1 - cos) n_i n + sin (n x e_i)
            const ld cross = k == i ? 0 : ((k + 1) % 3 == i ? -n[(i + 1) % 3] : n[(i + 2) % 3]);
            t[i][k]        = (i == k ? co : 0) + (1 - co) * n[i] * n[k] + s * cross;
            size[i][k]     = (i == k ? 1 : 0) + 2 * std::abs(n[i] * n[k]) + std::abs(cross);
        }
    return t;
}

template<typename T, typename U>
void turn(Case& c) {
    const auto x = matrix<T>(c);
    // a unit axis
    m::Vector<U, 3> n{};
    std::array<ld, 3> wide{};
    if(std::is_integral_v<U> || c.draw(4) == 0) {
        const std::size_t i = c.draw(3);
        n[i]                = static_cast<U>(std::is_signed_v<U> && c.draw(2) ? -1 : 1);
    }
    else {
        ld len = 0;
        std::array<ld, 3> d;
        for(auto& e : d)
            e = static_cast<ld>(num::real<double>(c, 2)), len += e * e;
        if(len == 0)
            d[0] = len = 1;
        for(std::size_t i = 0; i < 3; ++i)
            n[i] = static_cast<U>(d[i] / std::sqrt(len));
    }
    for(std::size_t i = 0; i < 3; ++i)
        wide[i] = static_cast<ld>(static_cast<T>(n[i]));

    auto go = [&](auto angle) {
        const ld a = static_cast<ld>(static_cast<T>(angle));
        std::ostringstream by;
        by << "rotate by " << num::printable(angle) << " about (" << num::printable(n[0]) << ", " << num::printable(n[1])
           << ", " << num::printable(n[2]) << ")";
        LOG(by.str() << ' ' << text(x));
        Wide size;
        const Wide t = rotation(a, wide, size);
        const auto r = m::rotate(x, angle, n);
        static_assert(std::is_same_v<decltype(r), const m::Matrix<T, 4, 4>>);
        expect(r, x, t, size, by.str());
        // as such: the fourth column stays, lengths and the axis too, and rotations add up
        const auto pure = m::rotate(m::Matrix<T, 4, 4>{1}, angle, n);
        const auto twice = m::rotate(pure, angle, n);
        Wide size2;
        const Wide t2 = rotation(2 * a, wide, size2);
        // the axis is a unit vector up to its rounding
        const ld eps = std::max(static_cast<ld>(std::numeric_limits<T>::epsilon()),
                                std::is_integral_v<U> ? 0 : static_cast<ld>(std::numeric_limits<U>::epsilon()));
        for(std::size_t i = 0; i < 4; ++i)
            for(std::size_t j = 0; j < 4; ++j)
                CHECK(std::abs(static_cast<ld>(twice[i][j]) - t2[i][j]) <= 64 * eps, by.str() << " twice: " << text(twice));
        ld kept = 0, on_axis = 0;
        m::Vector<T, 4> p{1, 2, 3, 1};
        const auto q = pure * p;
        for(std::size_t i = 0; i < 3; ++i)
            kept += static_cast<ld>(q[i]) * static_cast<ld>(q[i]), on_axis += static_cast<ld>(q[i] - p[i]) * wide[i];
        CHECK(std::abs(kept - 14) <= 640 * eps && std::abs(on_axis) <= 200 * eps && q[3] == 1, by.str() << " of (1, 2, 3)");
        if(std::sin(a) != 0 && wide[0] * wide[1] * wide[2] != 0)
            c.nontrivial();
        if constexpr(std::is_integral_v<U>)
            if(a != 0)
                c.nontrivial();
    };
    switch(c.draw(4)) {
    case 0: go(static_cast<int>(c.range(-7, 7))); break;
    case 1: go(num::real<float>(c, 2)); break;
    case 2: go(num::real<double>(c, 2)); break;
    default: go(num::real<T>(c, 3));
    }
    c.label(type_name<U>());
}
SUB_T(rotate_float_float, (turn<float, float>), 20000, 500000);
SUB_T(rotate_double_double, (turn<double, double>), 20000, 500000);
SUB_T(rotate_float_double, (turn<float, double>), 10000, 500000);
SUB_T(rotate_double_float, (turn<double, float>), 10000, 500000);
SUB_T(rotate_float_int, (turn<float, int>), 10000, 500000);
SUB_T(rotate_double_int, (turn<double, int>), 10000, 500000);
SUB_T(rotate_double_schar, (turn<double, signed char>), 5000, 500000);
SUB_T(rotate_ldouble, (turn<long double, long double>), 5000, 100000);

// M04: determinant, transposition, outer and entry-wise products, against their definitions.
#include "math_values.hpp"
#include <xme/math/matrix.hpp>
#include <algorithm>
#include <array>
#include <numeric>
#include <sstream>

namespace m = xme::math;

template<typename T, std::size_t C, std::size_t R>
std::string text(const m::Matrix<T, C, R>& x) {
    std::ostringstream o;
    o.precision(21);
    for(std::size_t i = 0; i < C; ++i) {
        o << (i ? ", (" : "((");
        for(std::size_t j = 0; j < R; ++j)
            o << (j ? ", " : "") << x[i][j];
        o << ')';
    }
    o << ')';
    return o.str();
}

template<typename T>
T entry(Case& c, int kind) {
    switch(kind) {
    case 0: return static_cast<T>(num::small<int>(c));
    case 1: return num::real<T>(c, 1);
    case 2: return static_cast<T>(num::small<int>(c, 1));
    default: return num::real<T>(c, 10);
    }
}

template<typename T, std::size_t C, std::size_t R>
m::Matrix<T, C, R> matrix(Case& c, int kind) {
    m::Matrix<T, C, R> x{0};
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j)
            x[i][j] = entry<T>(c, kind);
    return x;
}

template<typename T, std::size_t N>
void leibniz(const m::Matrix<T, N, N>& x, ld& sum, ld& size) {
    std::array<std::size_t, N> p;
    std::iota(p.begin(), p.end(), 0);
    sum = size = 0;
    do {
        int inversions = 0;
        ld t           = 1;
        for(std::size_t i = 0; i < N; ++i) {
            t *= static_cast<ld>(x[i][p[i]]);
            for(std::size_t j = 0; j < i; ++j)
                inversions += p[j] > p[i];
        }
        sum += inversions % 2 ? -t : t;
        size += std::abs(t);
    } while(std::next_permutation(p.begin(), p.end()));
}

template<typename T, std::size_t N>
void determinant(Case& c) {
    const int kind = static_cast<int>(c.draw(4));
    auto x         = matrix<T, N, N>(c, kind);
    if(c.draw(6) == 5) {  // a column that repeats another, nearly or exactly
        const std::size_t a = c.draw(N), b = c.draw(N);
        x[b] = x[a] * entry<T>(c, kind);
        if(c.draw(2))
            x[b][c.draw(N)] = entry<T>(c, kind);
    }
    ld sum, size;
    leibniz(x, sum, size);
    LOG("determinant of " << text(x) << " = " << sum);
    const auto& cx = x;
    const bool exact = kind == 0 || kind == 2;
    auto is = [&](T got, const char* what) {
        if(exact && size < 1e6)
            CHECK(static_cast<ld>(got) == sum, what << " of " << text(x) << " is " << got << " instead of " << sum);
        else
            CHECK(num::near(got, sum, size, 32), what << " of " << text(x) << " is " << got << " instead of " << sum);
    };
    is(m::determinant(cx), "determinant");
    if constexpr(N == 4)
        is(cx.determinant(), "determinant()");
    is(m::determinant(m::transpose(cx)), "determinant of the transpose");
    if(sum != 0)
        c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(det2_float, (determinant<float, 2>), 20000, 500000);
SUB_T(det3_float, (determinant<float, 3>), 20000, 500000);
SUB_T(det4_float, (determinant<float, 4>), 20000, 500000);
SUB_T(det2_double, (determinant<double, 2>), 10000, 500000);
SUB_T(det3_double, (determinant<double, 3>), 20000, 500000);
SUB_T(det4_double, (determinant<double, 4>), 20000, 500000);
SUB_T(det4_ldouble, (determinant<long double, 4>), 10000, 200000);

template<typename T, std::size_t C, std::size_t R>
void entries(Case& c) {
    const int kind = static_cast<int>(c.draw(4));
    const auto x = matrix<T, C, R>(c, kind), y = matrix<T, C, R>(c, kind);
    LOG(text(x) << ", " << text(y));
    const auto t = m::transpose(x);
    static_assert(std::is_same_v<decltype(t), const m::Matrix<T, R, C>>);
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j)
            CHECK(t[j][i] == x[i][j], "transpose of " << text(x) << " is " << text(t));
    if constexpr(C == 4 && R == 4)
        CHECK(x.transpose() == t, "transpose() of " << text(x));

    const auto h = m::hadamard_product(x, y);
    static_assert(std::is_same_v<decltype(h), const m::Matrix<T, C, R>>);
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j) {
            const T want = x[i][j] * y[i][j];
            CHECK(h[i][j] == want, "hadamard_product of " << text(x) << " and " << text(y) << " is " << text(h));
        }

    m::Vector<T, R> a{};
    m::Vector<T, C> b{};
    for(std::size_t j = 0; j < R; ++j)
        a[j] = entry<T>(c, kind);
    for(std::size_t i = 0; i < C; ++i)
        b[i] = entry<T>(c, kind);
    const auto o = m::outer_product(a, b);
    static_assert(std::is_same_v<decltype(o), const m::Matrix<T, C, R>>);
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j) {
            const T want = a[j] * b[i];
            CHECK(o[i][j] == want, "outer_product: entry in column " << i << ", row " << j << " is " << o[i][j]
                                                                     << " instead of " << want);
        }
    c.nontrivial();
    c.label(type_name<T>());
}
SUB_T(float_2x2, (entries<float, 2, 2>), 4000, 100000);
SUB_T(float_3x3, (entries<float, 3, 3>), 4000, 100000);
SUB_T(float_4x4, (entries<float, 4, 4>), 4000, 100000);
SUB_T(float_2x4, (entries<float, 2, 4>), 4000, 100000);
SUB_T(float_4x3, (entries<float, 4, 3>), 4000, 100000);
SUB_T(float_3x2, (entries<float, 3, 2>), 4000, 100000);
SUB_T(double_3x4, (entries<double, 3, 4>), 4000, 100000);
SUB_T(double_4x2, (entries<double, 4, 2>), 4000, 100000);
SUB_T(double_2x3, (entries<double, 2, 3>), 4000, 100000);
SUB_T(double_4x4, (entries<double, 4, 4>), 4000, 100000);
SUB_T(double_5x5, (entries<double, 5, 5>), 4000, 100000);
SUB_T(double_6x1, (entries<double, 6, 1>), 4000, 100000);
SUB_T(double_1x4, (entries<double, 1, 4>), 4000, 100000);

// O01: operations leave their operands as they were, however they are passed
#include "elements.hpp"
#include "math_values.hpp"
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include <tuple>
#include <vector>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <xme/math/math.hpp>
#include <xme/math/matrix.hpp>
#include <xme/math/quaternion.hpp>
#include <xme/math/vector.hpp>
#include <xme/ranges/uninitialized.hpp>

namespace m = xme::math;

// Calculations --------------------------------------------------------------------------------------------------------

template<typename T>
    requires std::is_arithmetic_v<T>
bool same(T a, T b) {
    if constexpr(std::is_floating_point_v<T>)
        return a == b ? std::signbit(a) == std::signbit(b) : std::isnan(a) && std::isnan(b);
    else
        return a == b;
}
template<typename O>
    requires requires(O o) { std::is_lt(o); }
bool same(O a, O b) {
    return a == b || (!(a == a) && !(b == b)) || (!std::is_lteq(a) && !std::is_gteq(a) && !std::is_lteq(b) && !std::is_gteq(b));
}
template<typename T, std::size_t N>
bool same(const m::Vector<T, N>& a, const m::Vector<T, N>& b) {
    for(std::size_t i = 0; i < N; ++i)
        if(!same(a[i], b[i]))
            return false;
    return true;
}
template<typename T, std::size_t C, std::size_t R>
bool same(const m::Matrix<T, C, R>& a, const m::Matrix<T, C, R>& b) {
    for(std::size_t i = 0; i < C; ++i)
        if(!same(a[i], b[i]))
            return false;
    return true;
}
template<typename T>
bool same(const m::Quaternion<T>& a, const m::Quaternion<T>& b) {
    for(std::size_t i = 0; i < 4; ++i)
        if(!same(a[i], b[i]))
            return false;
    return true;
}

static int done;

//! What f(given...) is doesn't depend on whether the operands can be changed or are temporaries, and they aren't changed
template<typename F, typename... A>
void check(const char* name, F f, const A&... given) {
    const std::tuple<A...> constant(given...);
    std::tuple<A...> variable(given...);
    const auto want = std::apply(f, constant);
    {
        const auto r = std::apply(f, variable);
        static_assert(std::is_same_v<decltype(r), decltype(want)>);
        CHECK(same(r, want), name << " of variables isn't that of constants");
    }
    {
        const auto r = std::apply([&](auto&... x) { return f(std::remove_cvref_t<decltype(x)>(x)...); }, constant);
        static_assert(std::is_same_v<decltype(r), decltype(want)>);
        CHECK(same(r, want), name << " of temporaries isn't that of constants");
    }
    {
        const auto r = std::apply([&](auto&... x) { return f(std::move(x)...); }, constant);
        static_assert(std::is_same_v<decltype(r), decltype(want)>);
        CHECK(same(r, want), name << " of constant temporaries isn't that of constants");
    }
    {
        const auto r = std::apply([&](auto&... x) { return f(std::move(x)...); }, variable);
        CHECK(same(r, want), name << " of moved variables isn't that of constants");
    }
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        auto one = [&](std::size_t i, const auto& x, const auto& y, const auto& z) {
            CHECK(same(x, y), name << " changed its operand " << i);
            CHECK(same(z, y), name << " changed its constant operand " << i);
        };
        (one(I, std::get<I>(variable), given, std::get<I>(constant)), ...);
    }(std::index_sequence_for<A...>());
    // and again, to the same result
    CHECK(same(std::apply(f, constant), want), name << " isn't the same the second time");
    ++done;
}

//! The same object on both sides is as good as two equal ones
template<typename F, typename A>
void twice(const char* name, F f, const A& a) {
    const A b = a;
    A x = a, y = a;
    const auto want = f(a, b);
    CHECK(same(f(a, a), want), name << " of one object isn't that of two equal ones");
    CHECK(same(f(x, x), want) && same(x, b), name << " of one variable isn't that of two equal ones");
    CHECK(same(f(x, y), want), name);
    ++done;
}

//! f(x, operand) changes x only; the result is x
template<typename F, typename A, typename B>
void assigns(const char* name, F f, const A& a, const B& b) {
    A x = a;
    const B k = b;
    B v = b;
    static_assert(std::is_same_v<decltype(f(x, k)), A&> && std::is_same_v<decltype(f(x, v)), A&>);
    CHECK(&f(x, k) == &x, name << " didn't return its left side");
    const A want = x;
    x = a;
    f(x, v);
    CHECK(same(x, want) && same(v, k), name << " with a variable isn't that with a constant");
    x = a;
    f(x, B(b));
    CHECK(same(x, want), name << " with a temporary isn't that with a constant");
    x = a;
    f(x, std::move(k));
    CHECK(same(x, want) && same(k, b), name << " with a constant temporary isn't that with a constant");
    if constexpr(std::is_same_v<A, B>) {
        x = a;
        A y = a;
        f(y, std::as_const(x));
        f(x, x);
        CHECK(same(x, y), name << " of an object with itself isn't that with an equal one");
    }
    ++done;
}

//! The operand is a part of the left side
template<typename F, typename A, typename P>
void by_part(const char* name, F f, const A& a, P part) {
    A x = a, y = a;
    const auto k = part(a);
    f(x, part(x));
    f(y, k);
    CHECK(same(x, y), name << " with a part of the left side isn't that with a copy of it");
    ++done;
}

#define FWD(x) std::forward<decltype(x)>(x)
#define FN(...) [](auto&&... x) { return __VA_ARGS__(std::forward<decltype(x)>(x)...); }
#define OP2(op) [](auto&& a, auto&& b) { return std::forward<decltype(a)>(a) op std::forward<decltype(b)>(b); }
#define OPA(op) [](auto& a, auto&& b) -> decltype(auto) { return a op std::forward<decltype(b)>(b); }

template<typename T>
T some(Case& c) {
    if constexpr(std::is_floating_point_v<T>)
        return c.draw(6) ? num::real<T>(c, 3) : num::any<T>(c);
    else
        return static_cast<T>(c.range(1, 100));
}

template<typename T, std::size_t N>
auto vec(Case& c) {
    m::Vector<T, N> v{};
    for(std::size_t i = 0; i < N; ++i)
        v[i] = some<T>(c);
    return v;
}
template<typename T, std::size_t C, std::size_t R>
auto mat(Case& c) {
    m::Matrix<T, C, R> x{};
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j)
            x[i][j] = some<T>(c);
    return x;
}

//! A divisor
template<typename T>
T divisor(Case& c) {
    const T d = some<T>(c);
    return d == T(0) ? T(1) : d;
}

template<typename T, std::size_t N>
static void vectors(Case& c) {
    using O = std::conditional_t<std::is_same_v<T, double>, float, std::conditional_t<std::is_same_v<T, float>, double, T>>;
    const auto a = vec<T, N>(c), b = vec<T, N>(c), k = vec<T, N>(c);
    const auto o = vec<O, N>(c);
    const T s    = divisor<T>(c);
    LOG("vectors of " << N << ' ' << type_name<T>());
    done = 0;
    check("v + v", OP2(+), a, b);
    check("v - v", OP2(-), a, b);
    check("v * v", OP2(*), a, b);
    check("v / v", OP2(/), a, b);
    check("v + w", OP2(+), a, o);
    check("v * w", OP2(*), a, o);
    check("v + s", OP2(+), a, s);
    check("v - s", OP2(-), a, s);
    check("v * s", OP2(*), a, s);
    check("v / s", OP2(/), a, s);
    check("-v", [](auto&& v) { return -std::forward<decltype(v)>(v); }, a);
    check("v == v", OP2(==), a, b);
    check("v != v", OP2(!=), a, b);
    check("v <=> v", OP2(<=>), a, b);
    check("v < v", OP2(<), a, b);
    check("dot", FN(m::dot), a, b);
    check("v[i]", [](auto&& v, auto&& i) { return T(std::forward<decltype(v)>(v)[i]); }, a, std::size_t(c.draw(N)));
    check("copy", [](auto&& v) { return m::Vector<T, N>(std::forward<decltype(v)>(v)); }, a);
    check("conversion", [](auto&& v) { return m::Vector<T, N>(std::forward<decltype(v)>(v)); }, o);
    assigns("=", OPA(=), a, b);
    assigns("= w", OPA(=), a, o);
    assigns("+=", OPA(+=), a, b);
    assigns("-=", OPA(-=), a, b);
    assigns("*=", OPA(*=), a, b);
    assigns("/=", OPA(/=), a, b);
    assigns("*= w", OPA(*=), a, o);
    assigns("+= s", OPA(+=), a, s);
    assigns("-= s", OPA(-=), a, s);
    assigns("*= s", OPA(*=), a, s);
    assigns("/= s", OPA(/=), a, s);
    twice("v + v", OP2(+), a);
    twice("v - v", OP2(-), a);
    twice("v * v", OP2(*), a);
    twice("v == v", OP2(==), a);
    twice("v <=> v", OP2(<=>), a);
    twice("dot", FN(m::dot), a);
    const std::size_t i = c.draw(N);
    auto part = [i](auto& v) -> auto& { return v[i]; };
    by_part("*= v[i]", OPA(*=), a, part);
    by_part("+= v[i]", OPA(+=), a, part);
    by_part("-= v[i]", OPA(-=), a, part);
    if(a[i] != T(0))
        by_part("/= v[i]", OPA(/=), a, part);
    if constexpr(N == 3) {
        check("cross", FN(m::cross), a, b);
        twice("cross", FN(m::cross), a);
    }
    if constexpr(std::is_floating_point_v<T>) {
        check("length", FN(m::length), a);
        check("normalize", FN(m::normalize), a);
        check(".length", [](auto&& v) { return v.length(); }, a);
        check(".normalize", [](auto&& v) { return v.normalize(); }, a);
        check("distance", FN(m::distance), a, b);
        twice("distance", FN(m::distance), a);
        check("reflect", FN(m::reflect), a, b);
        twice("reflect", FN(m::reflect), a);
        check("faceforward", FN(m::faceforward), a, b, k);
        check("lerp", FN(m::lerp), a, b, s);
        check("lerp v", FN(m::lerp), a, b, k);
        check("lerp w", FN(m::lerp), a, b, o);
        check("lerp bool", FN(m::lerp), a, b, bool(c.draw(2)));
        check("mix", FN(m::mix), a, b, s);
        check("mix v", FN(m::mix), a, b, k);
        check("sign", FN(m::sign), a);
        twice("lerp", [&](auto&& x, auto&& y) { return m::lerp(x, y, s); }, a);
        {
            // all operands are one object
            m::Vector<T, N> x = a, y = a, z = a;
            CHECK(same(m::lerp(x, x, x), m::lerp(std::as_const(x), y, z)), "lerp of one vector");
            CHECK(same(m::faceforward(x, x, x), m::faceforward(std::as_const(x), y, z)), "faceforward of one vector");
        }
    }
    c.nontrivial();
}

template<typename T, std::size_t C, std::size_t R>
static void matrices(Case& c) {
    using O = std::conditional_t<std::is_same_v<T, double>, float, double>;
    const auto a = mat<T, C, R>(c), b = mat<T, C, R>(c);
    const auto o = mat<O, C, R>(c);
    const auto r = mat<T, 3, C>(c);
    const auto v = vec<T, C>(c);
    const auto w = vec<O, C>(c);
    const T s    = divisor<T>(c);
    LOG("matrices " << C << 'x' << R << " of " << type_name<T>());
    check("m + m", OP2(+), a, b);
    check("m - m", OP2(-), a, b);
    check("m + o", OP2(+), a, o);
    check("m - o", OP2(-), a, o);
    check("m + s", OP2(+), a, s);
    check("m - s", OP2(-), a, s);
    check("m * s", OP2(*), a, s);
    check("m / s", OP2(/), a, s);
    check("-m", [](auto&& x) { return -std::forward<decltype(x)>(x); }, a);
    check("m * v", OP2(*), a, v);
    check("m * w", OP2(*), a, w);
    check("m * r", OP2(*), a, r);
    check("m == m", OP2(==), a, b);
    check("m <=> m", OP2(<=>), a, b);
    check("transpose", FN(m::transpose), a);
    check("hadamard_product", FN(m::hadamard_product), a, b);
    check("outer_product", FN(m::outer_product), v, vec<T, R>(c));
    check("row", [](auto&& x, std::size_t i) { return std::forward<decltype(x)>(x).row(i); }, a, std::size_t(c.draw(R)));
    check("column", [](auto&& x, std::size_t i) { return std::forward<decltype(x)>(x).column(i); }, a, std::size_t(c.draw(C)));
    check("m[i]", [](auto&& x, std::size_t i) { return m::Vector<T, R>(std::forward<decltype(x)>(x)[i]); }, a, std::size_t(c.draw(C)));
    check("copy", [](auto&& x) { return m::Matrix<T, C, R>(std::forward<decltype(x)>(x)); }, a);
    check("conversion", [](auto&& x) { m::Matrix<T, C, R> y; y = std::forward<decltype(x)>(x); return y; }, o);
    assigns("=", OPA(=), a, b);
    assigns("= o", OPA(=), a, o);
    assigns("+=", OPA(+=), a, b);
    assigns("-=", OPA(-=), a, b);
    assigns("+= o", OPA(+=), a, o);
    assigns("+= s", OPA(+=), a, s);
    assigns("-= s", OPA(-=), a, s);
    assigns("*= s", OPA(*=), a, s);
    assigns("/= s", OPA(/=), a, s);
    twice("m + m", OP2(+), a);
    twice("m - m", OP2(-), a);
    twice("m == m", OP2(==), a);
    twice("hadamard_product", FN(m::hadamard_product), a);
    const std::size_t i = c.draw(C), j = c.draw(R);
    auto part = [i, j](auto& x) -> auto& { return x[i][j]; };
    by_part("*= m[i][j]", OPA(*=), a, part);
    by_part("+= m[i][j]", OPA(+=), a, part);
    by_part("-= m[i][j]", OPA(-=), a, part);
    by_part("/= m[i][j]", OPA(/=), a, part);
    if constexpr(C == R) {
        check("m * m", OP2(*), a, b);
        twice("m * m", OP2(*), a);
        check("determinant", FN(m::determinant), a);
        if constexpr(C == 4)
            check(".determinant", [](auto&& x) { return FWD(x).determinant(); }, a);
        // the column of the matrix it is multiplied with
        const auto column = a[i];
        CHECK(same(a * a[i], a * column), "m * m[i]");
        auto x = a;
        x[i]   = x * x[i];
        CHECK(same(x[i], a * column), "m[i] = m * m[i]");
        x = a;
        x = x * x;
        CHECK(same(x, a * a), "m = m * m");
        x = a;
        x = m::transpose(x);
        CHECK(same(x, m::transpose(a)), "m = transpose(m)");
    }
    if constexpr(C == 4 && R == 4) {
        check(".transpose", [](auto&& x) { return FWD(x).transpose(); }, a);
        const auto n = vec<T, 3>(c);
        const auto p = vec<O, 3>(c);
        check("translate", FN(m::translate), a, n);
        check("translate w", FN(m::translate), a, p);
        check("scale", FN(m::scale), a, n);
        check("scale w", FN(m::scale), a, p);
        check("rotate", FN(m::rotate), a, s, n);
        check("rotate w", FN(m::rotate), a, O(s), p);
        check("from 3x3", [](auto&& x) { return m::Matrix<T, 4, 4>(std::forward<decltype(x)>(x)); }, mat<T, 3, 3>(c));
        const T e[6] = {some<T>(c), some<T>(c), some<T>(c), some<T>(c), some<T>(c), some<T>(c)};
        check("perspective", FN(m::perspective), e[0], e[1], e[2], e[3]);
        check("perspective_lh", FN(m::perspective_lh), e[0], e[1], e[2], e[3]);
        check("perspective_rh", FN(m::perspective_rh), e[0], e[1], e[2], e[3]);
        check("perspective 6", FN(m::perspective), e[0], e[1], e[2], e[3], e[4], e[5]);
        check("perspective_lh 6", FN(m::perspective_lh), e[0], e[1], e[2], e[3], e[4], e[5]);
        check("perspective_rh 6", FN(m::perspective_rh), e[0], e[1], e[2], e[3], e[4], e[5]);
        check("ortho", FN(m::ortho), e[0], e[1], e[2], e[3], e[4], e[5]);
        check("ortho_lh", FN(m::ortho_lh), e[0], e[1], e[2], e[3], e[4], e[5]);
        check("ortho_rh", FN(m::ortho_rh), e[0], e[1], e[2], e[3], e[4], e[5]);
    }
    c.nontrivial();
}

template<typename T>
static void scalars(Case& c) {
    using O = std::conditional_t<std::is_same_v<T, double>, float, double>;
    const T x = some<T>(c), y = some<T>(c), z = some<T>(c), w = some<T>(c);
    LOG("scalars and quaternions of " << type_name<T>());
    check("sign", FN(m::sign), x);
    check("radians", FN(m::radians), x);
    check("degrees", FN(m::degrees), x);
    check("sec", FN(m::sec), x);
    check("csc", FN(m::csc), x);
    check("cot", FN(m::cot), x);
    check("arcsin", FN(m::arcsin), x);
    check("arccos", FN(m::arccos), x);
    check("arctan", FN(m::arctan), x);
    const m::Quaternion<T> p(x, y, z, w), q(some<T>(c), some<T>(c), some<T>(c), some<T>(c));
    const m::Quaternion<O> o(some<O>(c), some<O>(c), some<O>(c), some<O>(c));
    check("q + q", OP2(+), p, q);
    check("q - q", OP2(-), p, q);
    check("q * q", OP2(*), p, q);
    check("q + o", OP2(+), p, o);
    check("q - o", OP2(-), p, o);
    check("q * o", OP2(*), p, o);
    check("q == q", OP2(==), p, q);
    check("q <=> q", OP2(<=>), p, q);
    check("q[i]", [](auto&& v, std::size_t i) { return T(std::forward<decltype(v)>(v)[i]); }, p, std::size_t(c.draw(4)));
    twice("q + q", OP2(+), p);
    twice("q - q", OP2(-), p);
    twice("q * q", OP2(*), p);
    twice("q == q", OP2(==), p);
    auto v = p;
    v      = v * v;
    CHECK(same(v, p * p), "q = q * q");
    c.nontrivial();
}

SUB_T(vectors_3, (vectors<float, 3>), 400, 20000);
SUB_T(vectors_4, (vectors<double, 4>), 400, 20000);
SUB_T(vectors_2, (vectors<float, 2>), 400, 20000);
SUB_T(vectors_5, (vectors<float, 5>), 400, 20000);
SUB_T(vectors_int, (vectors<int, 3>), 400, 20000);
SUB_T(matrices_4, (matrices<float, 4, 4>), 400, 20000);
SUB_T(matrices_3, (matrices<double, 3, 3>), 400, 20000);
SUB_T(matrices_2, (matrices<float, 2, 2>), 400, 20000);
SUB_T(matrices_2x3, (matrices<float, 2, 3>), 400, 20000);
SUB_T(scalars_float, scalars<float>, 400, 20000);
SUB_T(scalars_double, scalars<double>, 400, 20000);

// Elements ------------------------------------------------------------------------------------------------------------

template<typename T>
struct Given {
    Case& c;
    std::vector<int> values;
    Given(Case& c) : c(c) {
        const std::size_t n = c.draw(8);
        for(std::size_t i = 0; i < n; ++i)
            values.push_back(static_cast<int>(c.range(-40, 40)));
    }
    template<typename R>
    void is(R&& r, const std::vector<int>& want, const char* what) {
        std::size_t i = 0;
        for(auto&& x : r) {
            const int v = el::Elem<T>::read(x);
            CHECK(i < want.size() && v == want[i], what << ": element " << i << " is " << v);
            ++i;
        }
        CHECK(i == want.size(), what << ": there are " << i << " elements");
    }
};

//! f is called with a range, which it is to copy from: variable, constant, its iterators
template<typename T, typename R, typename F>
void from(Given<T>& g, R& source, const char* name, F f) {
    Case& c = g.c;
    auto kept = [&](const char* how) {
        LOG(name << ": " << how);
        g.is(source, g.values, "the source");
        ++done;
    };
    f(source, true);
    kept("variable");
    f(std::as_const(source), true);
    kept("constant");
    if constexpr(requires { source.begin(); }) {
        f(std::ranges::subrange(source.begin(), source.end()), true);
        kept("subrange");
        f(std::ranges::subrange(std::as_const(source).begin(), std::as_const(source).end()), true);
        kept("constant subrange");
    }
    f(source, false);
    kept("iterators");
    f(std::as_const(source), false);
    kept("constant iterators");
}

//! Elements that can be changed, but only be iterated once
template<typename T>
struct Once {
    std::vector<T>& of;
    struct Iter {
        using value_type        = T;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        using iterator_concept  = std::input_iterator_tag;
        T* p;
        T& operator*() const { return *p; }
        Iter& operator++() { return ++p, *this; }
        void operator++(int) { ++p; }
        friend bool operator==(const Iter& i, const Iter& j) { return i.p == j.p; }
    };
    Iter begin() const { return {of.data()}; }
    Iter end() const { return {of.data() + of.size()}; }
};

//! All that copies a range, from a range of one type
template<typename T, typename R>
void consumers(Given<T>& g, R& source, const char* name) {
    using std::begin, std::end;
    const auto& vs = g.values;
    auto both      = vs;
    both.insert(both.end(), vs.begin(), vs.end());
    const std::size_t at = vs.empty() ? 0 : g.c.draw(vs.size() + 1);
    auto inserted        = vs;
    inserted.insert(inserted.begin() + static_cast<std::ptrdiff_t>(at), vs.begin(), vs.end());
    switch(g.c.draw(9)) {
    case 0:
        if constexpr(std::ranges::forward_range<R>)
            from(g, source, name, [&](auto&& r, bool whole) {
            if(whole)
                g.is(xme::Array<T>(std::forward<decltype(r)>(r)), vs, "Array(range)");
            else
                g.is(xme::Array<T>(begin(r), end(r)), vs, "Array(first, last)");
        });
        break;
    case 1:
        from(g, source, name, [&](auto&& r, bool whole) {
            xme::Array<T> a;
            for(int i = 0; i < 2; ++i)
                if(whole)
                    a.push_back(std::forward<decltype(r)>(r));
                else
                    a.push_back(begin(r), end(r));
            g.is(a, both, "Array::push_back");
        });
        break;
    case 2:
        from(g, source, name, [&](auto&& r, bool whole) {
            xme::Array<T> a;
            a.push_back(begin(r), end(r));
            if(g.c.draw(2))
                a.reserve(40);
            const auto p = a.begin() + static_cast<std::ptrdiff_t>(at);
            if(whole)
                a.insert(p, std::forward<decltype(r)>(r));
            else
                a.insert(p, begin(r), end(r));
            g.is(a, inserted, "Array::insert");
        });
        break;
    case 3:
        from(g, source, name, [&](auto&& r, bool whole) {
            if(whole)
                g.is(xme::LinkedList<T>(std::forward<decltype(r)>(r)), vs, "LinkedList(range)");
            else
                g.is(xme::LinkedList<T>(begin(r), end(r)), vs, "LinkedList(first, last)");
        });
        break;
    case 4:
        from(g, source, name, [&](auto&& r, bool whole) {
            xme::LinkedList<T> l(g.c.draw(12), el::Elem<T>::make(3));
            if(whole)
                l.assign(std::forward<decltype(r)>(r));
            else
                l.assign(begin(r), end(r));
            g.is(l, vs, "LinkedList::assign");
        });
        break;
    case 5:
        from(g, source, name, [&](auto&& r, bool whole) {
            xme::LinkedList<T> l(begin(r), end(r));
            auto p = l.before_begin();
            for(std::size_t i = 0; i < at; ++i)
                ++p;
            if(whole)
                l.insert_after(p, std::forward<decltype(r)>(r));
            else
                l.insert_after(p, begin(r), end(r));
            g.is(l, inserted, "LinkedList::insert_after");
        });
        break;
    case 6:
        from(g, source, name, [&](auto&& r, bool whole) {
            auto sorted = vs;
            std::sort(sorted.begin(), sorted.end());
            auto rest = [&](auto h) {
                for(std::size_t i = sorted.size(); i-- > 0; h.pop())
                    CHECK(!h.empty() && el::Elem<T>::read(std::as_const(h).front()) == sorted[i], "Heap: " << i << " from the end");
                CHECK(h.empty(), "Heap has more elements");
            };
            auto less = [](const T& a, const T& b) { return el::Elem<T>::read(a) < el::Elem<T>::read(b); };
            using H   = xme::Heap<T, xme::Array<T>, decltype(less)>;
            if(whole)
                rest(H(std::forward<decltype(r)>(r)));
            else
                rest(H(begin(r), end(r)));
        });
        break;
    case 7:
        if constexpr(std::ranges::forward_range<R>) {
            from(g, source, name, [&](auto&& r, bool whole) {
                std::allocator<T> alloc;
                T* to = alloc.allocate(vs.size() + 1);
                if(whole) {
                    std::span<T> out(to, vs.size());
                    xme::ranges::uninitialized_copy_a(r, out, alloc);
                }
                else
                    xme::ranges::uninitialized_copy_a(begin(r), end(r), to, to + vs.size(), alloc);
                std::vector<int> got;
                for(std::size_t i = 0; i < vs.size(); ++i)
                    got.push_back(el::Elem<T>::read(to[i]));
                std::destroy_n(to, vs.size());
                alloc.deallocate(to, vs.size() + 1);
                CHECK(got == vs, "uninitialized_copy_a");
            });
        }
        break;
    default:
        from(g, source, name, [&](auto&& r, bool whole) {
            const int v    = vs.empty() || g.c.draw(3) == 0 ? 99 : vs[g.c.draw(vs.size())];
            const auto pos = static_cast<std::ptrdiff_t>(std::find(vs.begin(), vs.end(), v) - vs.begin());
            T x            = el::Elem<T>::make(v);
            auto it        = begin(r);
            if(whole)
                it = xme::find(begin(r), end(r), x);
            else {
                const T& k = x;
                it         = xme::find(begin(r), end(r), k);
            }
            CHECK(std::ranges::distance(begin(r), it) == pos, "find");
            CHECK(el::Elem<T>::read(x) == v, "find changed what was looked for");
        });
    }
}

template<typename T>
static void of_ranges(Case& c) {
    el::world.reset();
    {
        Given<T> g(c);
        done         = 0;
        auto element = [&](auto& to) {
            for(int v : g.values)
                to.push_back(el::Elem<T>::make(v));
        };
        switch(c.draw(9)) {
        case 7: {
            std::vector<T> v;
            element(v);
            Once<T> s{v};
            consumers(g, s, "single pass");
            g.is(v, g.values, "what is iterated");
            break;
        }
        case 0: {
            std::vector<T> s;
            element(s);
            consumers(g, s, "std::vector");
            break;
        }
        case 1: {
            std::list<T> s;
            element(s);
            consumers(g, s, "std::list");
            break;
        }
        case 2: {
            std::forward_list<T> s;
            for(std::size_t i = g.values.size(); i-- > 0;)
                s.push_front(el::Elem<T>::make(g.values[i]));
            consumers(g, s, "std::forward_list");
            break;
        }
        case 3: {
            std::deque<T> s;
            element(s);
            consumers(g, s, "std::deque");
            break;
        }
        case 4: {
            xme::Array<T> s;
            element(s);
            consumers(g, s, "Array");
            break;
        }
        case 5: {
            xme::LinkedList<T> s;
            for(std::size_t i = g.values.size(); i-- > 0;)
                s.push_front(el::Elem<T>::make(g.values[i]));
            consumers(g, s, "LinkedList");
            break;
        }
        case 6: {
            std::vector<T> v;
            element(v);
            xme::ArrayView<T> s(v);
            consumers(g, s, "ArrayView");
            g.is(v, g.values, "what is viewed");
            break;
        }
        default: {
            g.values.resize(4, 5);
            std::array<T, 4> s{el::Elem<T>::make(g.values[0]), el::Elem<T>::make(g.values[1]), el::Elem<T>::make(g.values[2]),
                               el::Elem<T>::make(g.values[3])};
            consumers(g, s, "std::array");
        }
        }
        if(done && !g.values.empty())
            c.nontrivial();
    }
    el::world.check_empty();
}

//! A number, to be converted
template<typename T>
struct Source {
    int v;
    mutable int used = 0;
    operator T() const& { return ++used, el::Elem<T>::make(v); }
    operator T() && { return std::exchange(v, -77), el::Elem<T>::make(7000); }
};

//! f makes something of one element; then read() finds the value in it
template<typename T, typename F>
void one(Case& c, int v, const char* name, F f) {
    LOG(name << ' ' << v);
    T x       = el::Elem<T>::make(v);
    const T k = el::Elem<T>::make(v);
    auto value = [&](int got, const char* how) { CHECK(got == v, name << " of a " << how << " has the value " << got); };
    value(f(x), "variable");
    CHECK(el::Elem<T>::read(x) == v, name << " changed the variable");
    value(f(k), "constant");
    CHECK(el::Elem<T>::read(k) == v, name << " changed the constant");
    value(f(std::move(k)), "constant temporary");
    CHECK(el::Elem<T>::read(k) == v, name << " changed the constant temporary");
    value(f(el::Elem<T>::make(v)), "temporary");
    value(f(x), "variable, again");
    CHECK(el::Elem<T>::read(x) == v, name << " changed the variable");
    value(f(std::move(x)), "moved variable");
    (void)c;
    ++done;
}

template<typename T>
static void elements(Case& c) {
    el::world.reset();
    {
        done        = 0;
        const int v = static_cast<int>(c.range(-40, 40)), w = static_cast<int>(c.range(-40, 40));
        auto read   = [](const auto& x) { return el::Elem<T>::read(x); };
        auto make   = [](int i) { return el::Elem<T>::make(i); };
        const std::size_t before = c.draw(5), at = c.draw(before + 1);
        const bool room = c.draw(2);
        auto array      = [&] {
            xme::Array<T> a;
            for(std::size_t i = 0; i < before; ++i)
                a.push_back(make(w));
            if(room)
                a.reserve(before + 3);
            return a;
        };
        auto list = [&] { return xme::LinkedList<T>(before, make(w)); };
        auto less = [](const T& a, const T& b) { return el::Elem<T>::read(a) < el::Elem<T>::read(b); };
        switch(c.draw(12)) {
        case 0:
            one<T>(c, v, "Array::push_back", [&](auto&& x) { auto a = array(); a.push_back(FWD(x)); return read(a.back()); });
            one<T>(c, v, "Array::emplace_back", [&](auto&& x) { auto a = array(); return read(a.emplace_back(FWD(x))); });
            break;
        case 1:
            one<T>(c, v, "Array::insert", [&](auto&& x) { auto a = array(); return read(*a.insert(a.begin() + static_cast<std::ptrdiff_t>(at), FWD(x))); });
            one<T>(c, v, "Array(n, value)", [&](auto&& x) {
                xme::Array<T> a(3, FWD(x));
                CHECK(a.size() == 3 && read(a[0]) == v && read(a[1]) == v);
                return read(a[2]);
            });
            break;
        case 2:
            one<T>(c, v, "LinkedList::push_front", [&](auto&& x) { auto l = list(); l.push_front(FWD(x)); return read(l.front()); });
            one<T>(c, v, "LinkedList::emplace_front", [&](auto&& x) { auto l = list(); return read(l.emplace_front(FWD(x))); });
            one<T>(c, v, "LinkedList(n, value)", [&](auto&& x) {
                xme::LinkedList<T> l(3, FWD(x));
                CHECK(read(*l.begin()) == v && read(*++l.begin()) == v);
                return read(*++(++l.begin()));
            });
            break;
        case 3:
            one<T>(c, v, "LinkedList::insert_after", [&](auto&& x) { auto l = list(); return read(*l.insert_after(l.before_begin(), FWD(x))); });
            one<T>(c, v, "LinkedList::emplace_after", [&](auto&& x) { auto l = list(); return read(*l.emplace_after(l.before_begin(), FWD(x))); });
            break;
        case 4: {
            using H = xme::Heap<T, xme::Array<T>, decltype(less)>;
            auto heap = [&] { H h; for(std::size_t i = 0; i < before; ++i) h.push(make(-50)); return h; };
            one<T>(c, v, "Heap::push", [&](auto&& x) { auto h = heap(); h.push(FWD(x)); return read(std::as_const(h).front()); });
            one<T>(c, v, "Heap::emplace", [&](auto&& x) { auto h = heap(); h.emplace(FWD(x)); return read(std::as_const(h).front()); });
            break;
        }
        case 5: {
            auto check_queue = [&](auto& q, auto&& x, bool emplace) {
                const bool ok = emplace ? q.emplace(FWD(x)) : q.push(FWD(x));
                CHECK(ok, "the queue was full");
                int got = -1;
                q.consume([&](auto&& y) { got = el::Elem<T>::read(y); });
                return got;
            };
            xme::SPSCQueue<T, xme::Capacity<4>> q;
            xme::SPSCQueue<T> d(4);
            one<T>(c, v, "SPSCQueue::push", [&](auto&& x) { return check_queue(q, FWD(x), false); });
            one<T>(c, v, "SPSCQueue::emplace", [&](auto&& x) { return check_queue(d, FWD(x), true); });
            one<T>(c, v, "SPSCQueue::push", [&](auto&& x) { return check_queue(d, FWD(x), false); });
            break;
        }
        case 6: {
            // a queue without room doesn't take what it is given
            xme::SPSCQueue<T, xme::Capacity<2>> q;
            while(q.push(make(w))) {}
            T x = make(v);
            CHECK(!q.push(x) && !q.emplace(x) && !q.push(std::as_const(x)) && read(x) == v, "a full queue changed what it was given");
            CHECK(!q.push(std::move(x)) && !q.emplace(std::move(x)) && read(x) == v, "a full queue took what it was given");
            xme::SPSCQueue<T> d(2);
            while(d.push(make(w))) {}
            CHECK(!d.push(std::move(x)) && !d.emplace(std::move(x)) && read(x) == v, "a full queue took what it was given");
            LOG("a full queue");
            ++done;
            break;
        }
        case 7:
            one<T>(c, v, "Pair", [&](auto&& x) {
                xme::Pair<int, T> p(1, FWD(x));
                return read(p.second);
            });
            one<T>(c, v, "make_pair", [&](auto&& x) { auto p = xme::make_pair(FWD(x), 2); return read(p.first); });
            one<T>(c, v, "AlignedData", [&](auto&& x) { xme::AlignedData<T> d(FWD(x)); const int r = read(*d.data()); std::destroy_at(d.data()); return r; });
            break;
        case 8:
            one<T>(c, v, "Tuple", [&](auto&& x) { xme::Tuple<int, T, char> t{1, FWD(x), 'c'}; return read(xme::get<1>(t)); });
            one<T>(c, v, "make_tuple", [&](auto&& x) { auto t = xme::make_tuple(FWD(x), 2, 3.5); return read(xme::get<0>(t)); });
            break;
        case 9: {
            // what holds elements is copied
            xme::Pair<T, int> p(make(v), 2);
            xme::Tuple<T, int> t{make(v), 2};
            xme::Array<T> a{make(v), make(w)};
            const auto p2 = p;
            const auto t2 = t;
            const auto a2 = a;
            auto q        = xme::tuple_cat(t, t2, xme::make_tuple(make(w)));
            CHECK(read(xme::get<0>(q)) == v && read(xme::get<2>(q)) == v && read(xme::get<4>(q)) == w, "tuple_cat");
            CHECK(read(p.first) == v && read(xme::get<0>(t)) == v && read(a[0]) == v && read(a[1]) == w, "copying changed what was copied");
            CHECK(read(p2.first) == v && read(xme::get<0>(t2)) == v && read(a2[0]) == v, "a copy differs");
            xme::Pair<T, int> p3(make(w), 3);
            xme::Tuple<T, int> t3{make(w), 3};
            p3 = p, t3 = t;
            CHECK(read(p3.first) == v && read(xme::get<0>(t3)) == v && read(p.first) == v && read(xme::get<0>(t)) == v, "assignment");
            p3 = std::as_const(p), t3 = std::as_const(t);
            xme::Pair<T, long> p4(make(w), 4);
            p4 = p;
            CHECK(read(p4.first) == v && read(p.first) == v, "assignment of another Pair");
            // of another type, whose elements are both emptied by moving
            auto assigned = [&](auto to, auto source, const char* what) {
                using std::get;
                auto kept = [&](const auto& of, int first, int second) { return read(get<0>(of)) == first && read(get<1>(of)) == second; };
                to = source;
                CHECK(kept(source, v, w), what << ": assignment changed the source");
                CHECK(kept(to, v, w), what << ": wrong values are assigned");
                get<0>(to) = make(5), get<1>(to) = make(6);
                to = std::as_const(source);
                CHECK(kept(source, v, w) && kept(to, v, w), what << ": assignment of a constant");
                get<0>(to) = make(5), get<1>(to) = make(6);
                to = std::move(std::as_const(source));
                CHECK(kept(source, v, w) && kept(to, v, w), what << ": assignment of a constant temporary");
                get<0>(to) = make(5), get<1>(to) = make(6);
                to = std::move(source);
                CHECK(kept(to, v, w), what << ": assignment of a temporary");
            };
            assigned(xme::Pair<T, T>(make(1), make(2)), std::pair<T, T>(make(v), make(w)), "Pair = std::pair");
            assigned(xme::Pair<T, T>(make(1), make(2)), xme::Tuple<T, T>{make(v), make(w)}, "Pair = Tuple");
            assigned(xme::Pair<T, T>(make(1), make(2)), std::tuple<T, T>(make(v), make(w)), "Pair = std::tuple");
            assigned(xme::Pair<T, T>(make(1), make(2)), xme::Pair<T, T>(make(v), make(w)), "Pair = Pair");
            assigned(xme::Tuple<T, T>{make(1), make(2)}, std::pair<T, T>(make(v), make(w)), "Tuple = std::pair");
            assigned(xme::Tuple<T, T>{make(1), make(2)}, std::tuple<T, T>(make(v), make(w)), "Tuple = std::tuple");
            assigned(xme::Tuple<T, T>{make(1), make(2)}, xme::Pair<T, T>(make(v), make(w)), "Tuple = Pair");
            assigned(xme::Tuple<T, T>{make(1), make(2)}, xme::Tuple<T, T>{make(v), make(w)}, "Tuple = Tuple");
            assigned(xme::Tuple<T, T>{make(1), make(2)}, std::array<T, 2>{make(v), make(w)}, "Tuple = std::array");
            xme::Tuple<T, long> t4{make(w), 4};
            t4 = t;
            CHECK(read(xme::get<0>(t4)) == v && read(xme::get<0>(t)) == v, "assignment of another Tuple");
            xme::apply([&](auto&& x, auto&&) { CHECK(read(x) == v); auto y = FWD(x); CHECK(read(y) == v); }, t);
            CHECK(read(xme::get<0>(t)) == v, "apply changed the Tuple");
            xme::LinkedList<T> l(2, make(v)), l2(l), l3;
            l3 = l;
            CHECK(read(l.front()) == v && read(l2.front()) == v && read(l3.front()) == v, "LinkedList");
            LOG("copies of what holds elements");
            ++done;
            break;
        }
        case 10: {
            one<T>(c, v, "bind_front", [&](auto&& x) {
                auto b = xme::bind_front([&](const T& y, int z) { return el::Elem<T>::read(y) + z; }, FWD(x));
                CHECK(b(1) == v + 1 && std::as_const(b)(2) == v + 2);
                return b(0);
            });
            one<T>(c, v, "bind_back", [&](auto&& x) {
                auto b = xme::bind_back([&](int z, T y) { return el::Elem<T>::read(y) + z; }, FWD(x));
                CHECK(b(1) == v + 1 && std::as_const(b)(2) == v + 2);
                return b(0);
            });
            // arguments that are given in the call
            T x    = make(v);
            auto b = xme::bind_front([&](int, T y) { return el::Elem<T>::read(y); }, 3);
            CHECK(b(x) == v && b(std::as_const(x)) == v && std::as_const(b)(x) == v && read(x) == v, "calling changed the argument");
            auto b2 = xme::bind_back([&](T y, int) { return el::Elem<T>::read(y); }, 3);
            CHECK(b2(x) == v && b2(std::as_const(x)) == v && std::as_const(b2)(x) == v && read(x) == v, "calling changed the argument");
            break;
        }
        default: {
            // functors, copied from what can be changed
            struct F {
                T held;
                int n;
                int operator()(int z) const { return el::Elem<T>::read(held) + z + n; }
            };
            F f{make(v), 5};
            const F k{make(v), 5};
            xme::Delegate<int(int)> d(f), e(k), g(d), h(std::as_const(d)), i, j;
            i = f, j = g;
            CHECK(f(1) == v + 6 && k(1) == v + 6, "a Delegate changed the function object it copied");
            CHECK(d(1) == v + 6 && e(2) == v + 7 && g(3) == v + 8 && h(4) == v + 9 && i(5) == v + 10 && j(6) == v + 11, "a copy of a Delegate");
            xme::Delegate<int(T)> by([](T x) { return el::Elem<T>::read(x); });
            T x = make(w);
            CHECK(by(x) == w && by(std::as_const(x)) == w && read(x) == w, "a call changed the argument");
            auto bf = xme::bind_front(f, 1);
            auto bb = xme::bind_back(k, 1);
            CHECK(bf() == v + 6 && bb() == v + 6 && f(1) == v + 6, "binding changed the function object");
            auto bf2 = bf;
            CHECK(bf2() == v + 6 && bf() == v + 6 && bf2() == v + 6, "copying a bound object changed it");
            int calls = 0;
            auto counter = [&calls, f] { calls += f(1); };
            {
                xme::ScopedDelegate s(counter);
            }
            CHECK(calls == v + 6 && f(1) == v + 6, "ScopedDelegate");
            counter();
            CHECK(calls == 2 * (v + 6), "a ScopedDelegate changed the function object it copied");
            LOG("function objects");
            ++done;
        }
        }
        if(done)
            c.nontrivial();
    }
    el::world.check_empty();
}

using Tr = el::Tracked<el::copyable>;
SUB_T(ranges_of_strings, of_ranges<std::string>, 3000, 100000);
SUB_T(ranges_of_elements, of_ranges<Tr>, 3000, 100000);
SUB_T(strings, elements<std::string>, 3000, 100000);
SUB_T(elements_tracked, elements<Tr>, 3000, 100000);

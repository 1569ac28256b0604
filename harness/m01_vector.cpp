// M01: vectors compute component by component.
// Histories of operations on three vectors, replayed on arrays of numbers.
#include "math_values.hpp"
#include <xme/math/vector.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <array>
#include <sstream>
#include <utility>

namespace m = xme::math;

template<typename T, std::size_t N>
using Model = std::array<T, N>;

template<typename T, std::size_t N>
struct Place {
    unsigned char before[16];
    m::Vector<T, N> v;
    unsigned char after[16];
    Place() : v{} {
        std::memset(before, 0xA5, 16);
        std::memset(after, 0x5A, 16);
    }
    bool intact() const {
        for(int i = 0; i < 16; ++i)
            if(before[i] != 0xA5 || after[i] != 0x5A)
                return false;
        return true;
    }
};

template<typename V>
std::string text(const V& v, std::size_t n) {
    std::ostringstream o;
    o.precision(21);
    o << '(';
    for(std::size_t i = 0; i < n; ++i)
        o << (i ? ", " : "") << num::printable(v[i]);
    o << ')';
    return o.str();
}

//! Every way of reading a component agrees with the model
template<typename T, std::size_t N>
void expect(const m::Vector<T, N>& v, const Model<T, N>& want, const char* what) {
    for(std::size_t i = 0; i < N; ++i)
        CHECK(num::same(v[i], want[i]), what << ": " << text(v, N) << " instead of " << text(want, N));
    if constexpr(N == 2 || N == 3 || N == 4) {
        CHECK(num::same(v.x, want[0]), what << ": x");
        CHECK(num::same(v.y, want[1]), what << ": y");
        if constexpr(N >= 3)
            CHECK(num::same(v.z, want[2]), what << ": z");
        if constexpr(N >= 4)
            CHECK(num::same(v.w, want[3]), what << ": w");
    }
}

enum Op { plus, minus, times, over };

//! Is a op b defined (no overflow of a signed number, no division by 0)?
template<typename T>
bool defined(Op op, T a, T b) {
    if constexpr(std::is_floating_point_v<T>)
        return true;
    else {
        using P = decltype(a + b);
        if(op == over && b == 0)
            return false;
        if constexpr(std::is_signed_v<P>) {
            const __int128 x = a, y = b;
            const __int128 r = op == plus ? x + y : op == minus ? x - y : op == times ? x * y : x / y;
            return r >= std::numeric_limits<P>::min() && r <= std::numeric_limits<P>::max();
        }
        return true;
    }
}

template<typename T>
T result(Op op, T a, T b) {
    switch(op) {
    case plus: return static_cast<T>(a + b);
    case minus: return static_cast<T>(a - b);
    case times: return static_cast<T>(a * b);
    default: return static_cast<T>(a / b);
    }
}

//! A value of S that can be converted to T
template<typename S, typename T>
S operand(Case& c) {
    if constexpr(std::is_floating_point_v<S> && !std::is_floating_point_v<T>) {
        const S v = num::real<S>(c, 5);
        return std::is_signed_v<T> ? v : std::abs(v);
    }
    else if constexpr(std::is_integral_v<S>)
        return c.draw(3) ? num::small<S>(c, 20) : num::any<S>(c);
    else
        return c.draw(3) ? num::real<S>(c) : num::any<S>(c);
}

template<typename S, typename T, std::size_t N>
m::Vector<S, N> operands(Case& c) {
    m::Vector<S, N> v{};
    for(std::size_t i = 0; i < N; ++i)
        v[i] = operand<S, T>(c);
    return v;
}

template<typename T, std::size_t N>
struct History {
    Case& c;
    using V = m::Vector<T, N>;
    Place<T, N> p[3];
    Model<T, N> model[3];
    int effective = 0;

    explicit History(Case& c_) : c(c_) {
        for(auto& x : model)
            x.fill(T(0));
        check("a vector made from {}");
    }

    void check(const char* what) {
        for(int i = 0; i < 3; ++i) {
            CHECK(p[i].intact(), what << ": wrote outside of the vector");
            expect(p[i].v, model[i], what);
        }
    }

    bool all_defined(Op op, const Model<T, N>& a, const Model<T, N>& b) {
        for(std::size_t i = 0; i < N; ++i)
            if(!defined(op, a[i], b[i]))
                return false;
        return true;
    }

    //! model of (vector a) op (anything converted to the components b)
    Model<T, N> apply(Op op, const Model<T, N>& a, const Model<T, N>& b) {
        Model<T, N> r;
        for(std::size_t i = 0; i < N; ++i)
            r[i] = result(op, a[i], b[i]);
        return r;
    }

    template<typename R>
    static V binary(Op op, const V& a, const R& b) {
        static_assert(std::is_same_v<decltype(a + b), V> && std::is_same_v<decltype(a / b), V> &&
                      std::is_same_v<decltype(a - b), V> && std::is_same_v<decltype(a * b), V>);
        switch(op) {
        case plus: return a + b;
        case minus: return a - b;
        case times: return a * b;
        default: return a / b;
        }
    }
    template<typename R>
    static V& assign(Op op, V& a, const R& b) {
        switch(op) {
        case plus: return a += b;
        case minus: return a -= b;
        case times: return a *= b;
        default: return a /= b;
        }
    }

    static constexpr const char* names[4] = {"+", "-", "*", "/"};

    template<typename S>
    void scalar(Op op, bool self, int a, int d) {
        const S s = operand<S, T>(c);
        Model<T, N> b;
        b.fill(static_cast<T>(s));
        if(!all_defined(op, model[a], b))
            return;
        LOG("v" << (self ? a : d) << " = v" << a << ' ' << names[op] << (self ? "= (" : " (") << type_name<S>() << ") "
                << num::printable(s));
        if(self) {
            CHECK(&assign(op, p[a].v, s) == &p[a].v, "the assigning operator returns its left side");
            d = a;
        }
        else
            p[d].v = binary(op, std::as_const(p[a].v), s);
        model[d] = apply(op, model[a], b);
        ++effective;
    }

    template<typename S>
    void vector(Op op, bool self, int a, int d) {
        const auto s = operands<S, T, N>(c);
        Model<T, N> b;
        for(std::size_t i = 0; i < N; ++i)
            b[i] = static_cast<T>(s[i]);
        if(!all_defined(op, model[a], b))
            return;
        LOG("v" << (self ? a : d) << " = v" << a << ' ' << names[op] << (self ? "= (" : " (") << type_name<S>() << ") "
                << text(s, N));
        if(self) {
            CHECK(&assign(op, p[a].v, s) == &p[a].v, "the assigning operator returns its left side");
            d = a;
        }
        else
            p[d].v = binary(op, std::as_const(p[a].v), s);
        model[d] = apply(op, model[a], b);
        ++effective;
    }

    //! The right side is one of the vectors, or a component of one, possibly of the left side itself
    void aliased(Op op, bool self, int a, int b, int d) {
        const bool whole    = c.draw(2);
        const std::size_t i = c.draw(N);
        Model<T, N> r;
        if(whole)
            r = model[b];
        else
            r.fill(model[b][i]);
        if(!all_defined(op, model[a], r))
            return;
        LOG("v" << (self ? a : d) << " = v" << a << ' ' << names[op] << (self ? "= v" : " v") << b
                << (whole ? "" : "[i]") << ", i = " << i);
        if(self) {
            V& ret = whole ? assign(op, p[a].v, p[b].v) : assign(op, p[a].v, p[b].v[i]);
            CHECK(&ret == &p[a].v, "the assigning operator returns its left side");
            d = a;
        }
        else
            p[d].v = whole ? binary(op, p[a].v, p[b].v) : binary(op, p[a].v, p[b].v[i]);
        model[d] = apply(op, model[a], r);
        ++effective;
    }

    template<typename S>
    void convert(int d) {
        const auto s = operands<S, T, N>(c);
        LOG("v" << d << " = Vector<" << type_name<S>() << "> " << text(s, N));
        if(c.draw(2))
            p[d].v = V(s);
        else {
            auto& r = (p[d].v = s);
            CHECK(&r == &p[d].v, "assignment returns its left side");
        }
        for(std::size_t i = 0; i < N; ++i)
            model[d][i] = static_cast<T>(s[i]);
    }

    template<typename S>
    void from_scalar(int d) {
        const S s = operand<S, T>(c);
        LOG("v" << d << " = V(" << type_name<S>() << ' ' << num::printable(s) << ")");
        p[d].v = V(s);
        model[d].fill(static_cast<T>(s));
    }

    template<std::size_t... I, typename... S>
    void from_components(int d, std::index_sequence<I...>, S... s) {
        LOG("v" << d << " = V(components)");
        p[d].v = V(s...);
        ((model[d][I] = static_cast<T>(s)), ...);
    }

    //! Component I of a mixed list of components
    template<std::size_t I>
    auto mixed() {
        if constexpr(std::is_same_v<T, bool>)
            return c.draw(2) != 0;
        else if constexpr(I % 4 == 0)
            return operand<T, T>(c);
        else if constexpr(I % 4 == 1)
            return operand<int, T>(c);
        else if constexpr(I % 4 == 2)
            return operand<double, T>(c);
        else
            return operand<signed char, T>(c);
    }
    template<std::size_t... I>
    void components(int d, std::index_sequence<I...> seq) {
        if(c.draw(2))
            from_components(d, seq, mixed<I>()...);
        else
            from_components(d, seq, operand<T, T>(I >= N ? c : c)...);
    }

    template<typename U>
    void parts(int d) {
        if constexpr(N == 3 || N == 4) {
            const auto a2 = operands<U, T, 2>(c);
            const auto b2 = operands<T, T, 2>(c);
            const T s     = operand<T, T>(c);
            const int i   = std::is_same_v<T, bool> ? 1 : operand<int, T>(c);
            auto k        = [](auto v) { return static_cast<T>(v); };
            const int way = static_cast<int>(c.draw(N == 3 ? 4 : 10));
            LOG("v" << d << " from parts, way " << way);
            auto& r = model[d];
            if constexpr(N == 3) {
                switch(way) {
                case 0: p[d].v = V(s, a2), r = {s, k(a2[0]), k(a2[1])}; break;
                case 1: p[d].v = V(a2, s), r = {k(a2[0]), k(a2[1]), s}; break;
                case 2: p[d].v = V(i, b2), r = {k(i), b2[0], b2[1]}; break;
                default: p[d].v = V(b2, i), r = {b2[0], b2[1], k(i)}; break;
                }
            }
            else {
                const auto a3 = operands<U, T, 3>(c);
                switch(way) {
                case 0: p[d].v = V(s, i, a2), r = {s, k(i), k(a2[0]), k(a2[1])}; break;
                case 1: p[d].v = V(s, a2, i), r = {s, k(a2[0]), k(a2[1]), k(i)}; break;
                case 2: p[d].v = V(a2, i, s), r = {k(a2[0]), k(a2[1]), k(i), s}; break;
                case 3: p[d].v = V(a2, b2), r = {k(a2[0]), k(a2[1]), b2[0], b2[1]}; break;
                case 4: p[d].v = V(b2, a2), r = {b2[0], b2[1], k(a2[0]), k(a2[1])}; break;
                case 5: p[d].v = V(s, a3), r = {s, k(a3[0]), k(a3[1]), k(a3[2])}; break;
                case 6: p[d].v = V(a3, s), r = {k(a3[0]), k(a3[1]), k(a3[2]), s}; break;
                case 7: p[d].v = V(i, a3), r = {k(i), k(a3[0]), k(a3[1]), k(a3[2])}; break;
                case 8: p[d].v = V(a3, i), r = {k(a3[0]), k(a3[1]), k(a3[2]), k(i)}; break;
                default: p[d].v = V(i, b2, s), r = {k(i), b2[0], b2[1], s}; break;
                }
            }
            ++effective;
        }
    }

    void write(int d) {
        const std::size_t i = c.draw(N);
        const T v           = operand<T, T>(c);
        LOG("component " << i << " of v" << d << " = " << num::printable(v));
        if constexpr(N == 2 || N == 3 || N == 4) {
            if(c.draw(2)) {
                V& x = p[d].v;
                if(i == 0)
                    x.x = v;
                else if(i == 1)
                    x.y = v;
                if constexpr(N >= 3)
                    if(i == 2)
                        x.z = v;
                if constexpr(N >= 4)
                    if(i == 3)
                        x.w = v;
                model[d][i] = v;
                return;
            }
        }
        T& r        = p[d].v[i];
        r           = v;
        model[d][i] = v;
    }

    void compare(int a, int b) {
        V x = p[a].v, y = p[b].v;
        Model<T, N> u = model[a], w = model[b];
        // vectors that differ in the last components only
        const std::size_t same = c.draw(N + 1);
        for(std::size_t i = 0; i < same; ++i)
            y[i] = x[i], w[i] = u[i];
        bool eq = true;
        int ord = 0;
        for(std::size_t i = 0; i < N; ++i) {
            eq = eq && u[i] == w[i];
            if(ord == 0)
                ord = num::order_of(u[i], w[i]);
        }
        LOG("compare " << text(x, N) << " and " << text(y, N));
        const V& cx = x;
        const V& cy = y;
        CHECK((cx == cy) == eq, text(x, N) << " == " << text(y, N));
        CHECK((cx != cy) == !eq, text(x, N) << " != " << text(y, N));
        CHECK(num::order(cx <=> cy) == ord, text(x, N) << " <=> " << text(y, N));
        CHECK((cx < cy) == (ord == -1) && (cx > cy) == (ord == 1), text(x, N) << " < " << text(y, N));
        CHECK((cx <= cy) == (ord == -1 || ord == 0) && (cx >= cy) == (ord == 1 || ord == 0),
              text(x, N) << " <= " << text(y, N));
        ++effective;
    }

    void negate(int a, int d) {
        if constexpr(!std::is_same_v<T, bool>) {
            if(!all_defined(minus, Model<T, N>{}, model[a]))
                return;
            LOG("v" << d << " = -v" << a);
            p[d].v = -std::as_const(p[a].v);
            for(std::size_t i = 0; i < N; ++i)
                model[d][i] = static_cast<T>(-model[a][i]);
            ++effective;
        }
    }

    void step() {
        const int a = static_cast<int>(c.draw(3)), d = static_cast<int>(c.draw(3)), b = static_cast<int>(c.draw(3));
        const Op op     = static_cast<Op>(c.draw(4));
        const bool self = c.draw(2);
        using B         = std::is_same<T, bool>;
        switch(c.draw(14)) {
        case 0:
        case 1: components(d, std::make_index_sequence<N>()); break;
        case 2:
            if constexpr(!B::value)
                switch(c.draw(3)) {
                case 0: convert<double>(d); break;
                case 1: convert<int>(d); break;
                default: convert<signed char>(d);
                }
            break;
        case 3:
            if constexpr(B::value)
                from_scalar<bool>(d);
            else if(c.draw(2))
                from_scalar<T>(d);
            else
                from_scalar<int>(d);
            break;
        case 4: write(d); break;
        case 5: compare(a, b); break;
        case 6: negate(a, d); break;
        case 7:
            LOG("v" << d << " = v" << a);
            p[d].v   = p[a].v;
            model[d] = model[a];
            break;
        case 8:
            if constexpr(B::value)
                parts<bool>(d);
            else if(c.draw(2))
                parts<double>(d);
            else
                parts<signed char>(d);
            break;
        case 9:
        case 10:
            if constexpr(!B::value)
                switch(c.draw(3)) {
                case 0: scalar<T>(op, self, a, d); break;
                case 1: scalar<int>(op, self, a, d); break;
                default: scalar<double>(op, self, a, d);
                }
            break;
        case 11:
        case 12:
            if constexpr(!B::value)
                switch(c.draw(3)) {
                case 0: vector<T>(op, self, a, d); break;
                case 1: vector<signed char>(op, self, a, d); break;
                default: vector<double>(op, self, a, d);
                }
            break;
        default:
            if constexpr(!B::value)
                aliased(op, self, a, b, d);
        }
        check("after the operation");
    }
};

template<typename T, std::size_t N>
void history(Case& c) {
    static_assert(m::Vector<T, N>::size == N);
    History<T, N> h(c);
    c.begin_loop({3, 6, 12});
    while(c.more())
        h.step();
    if(h.effective >= 3)
        c.nontrivial();
    c.label(type_name<T>());
}

#define SIZES(T, name)                                      \
    SUB_T(name##_2, (history<T, 2>), 12000, 300000);          \
    SUB_T(name##_3, (history<T, 3>), 12000, 300000);          \
    SUB_T(name##_4, (history<T, 4>), 12000, 300000);          \
    SUB_T(name##_5, (history<T, 5>), 10000, 200000)
SIZES(float, float);
SIZES(double, double);
SIZES(int, int);
SIZES(unsigned, unsigned);
SIZES(signed char, schar);
SUB_T(bool_2, (history<bool, 2>), 2000, 50000);
SUB_T(bool_3, (history<bool, 3>), 2000, 50000);
SUB_T(bool_4, (history<bool, 4>), 2000, 50000);
SUB_T(float_1, (history<float, 1>), 5000, 100000);
SUB_T(int_1, (history<int, 1>), 5000, 100000);
SUB_T(float_8, (history<float, 8>), 5000, 100000);
SUB_T(int_7, (history<int, 7>), 5000, 100000);
SUB_T(long_double_3, (history<long double, 3>), 5000, 100000);
SUB_T(long_4, (history<long long, 4>), 5000, 100000);
SUB_T(long_6, (history<long long, 6>), 5000, 100000);

// The type of a vector made from components is their common type
static_assert(std::is_same_v<decltype(m::Vector{1, 2}), m::Vector<int, 2>>);
static_assert(std::is_same_v<decltype(m::Vector{1, 2.f, 3}), m::Vector<float, 3>>);
static_assert(std::is_same_v<decltype(m::Vector{1.f, 2., 3, 4}), m::Vector<double, 4>>);
static_assert(std::is_same_v<decltype(m::Vector{1, 2, 3, 4, 5.f}), m::Vector<float, 5>>);

template<typename V, typename T, std::size_t N>
constexpr bool is = std::is_same_v<V, m::Vector<T, N>>;
static_assert(is<m::vec2, float, 2> && is<m::vec3, float, 3> && is<m::vec4, float, 4>);
static_assert(is<m::dvec2, double, 2> && is<m::dvec3, double, 3> && is<m::dvec4, double, 4>);
static_assert(is<m::ivec2, std::int32_t, 2> && is<m::ivec3, std::int32_t, 3> && is<m::ivec4, std::int32_t, 4>);
static_assert(is<m::uvec2, std::uint32_t, 2> && is<m::uvec3, std::uint32_t, 3> && is<m::uvec4, std::uint32_t, 4>);
static_assert(is<m::bvec2, bool, 2> && is<m::bvec3, bool, 3> && is<m::bvec4, bool, 4>);

SUB(deduced, 3000, 60000) {
    const int i   = num::any<int>(c);
    const float f = num::any<float>(c);
    const short s = num::any<short>(c);
    const m::Vector a{i, s};
    CHECK(a[0] == i && a[1] == s, "Vector{int, short}");
    const m::Vector b{s, f, s};
    CHECK(b[0] == s && num::same(b[1], f) && b[2] == s, "Vector{short, float, short}");
    const m::Vector d{s, f, s, 0.5};
    CHECK(d[0] == s && num::same(d[1], static_cast<double>(f)) && d[2] == s && d[3] == 0.5, "Vector{short, float, short, double}");
    const m::Vector e{s, 1, i, s, 5};
    CHECK(e[0] == s && e[1] == 1 && e[2] == i && e[3] == s && e[4] == 5, "Vector of five");
    c.nontrivial();
}


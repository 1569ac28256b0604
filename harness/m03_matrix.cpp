// M03: matrices are arrays of columns with the arithmetic and the products of linear algebra.
// Histories of operations on three matrices, replayed on arrays of numbers.
#include "math_values.hpp"
#include <xme/math/matrix.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <array>
#include <sstream>
#include <utility>

namespace m = xme::math;

template<typename T, std::size_t C, std::size_t R>
using Model = std::array<std::array<T, R>, C>;

template<typename T, std::size_t C, std::size_t R>
struct Place {
    unsigned char before[32];
    m::Matrix<T, C, R> v{0};
    unsigned char after[32];
    Place() {
        std::memset(before, 0xA5, 32);
        std::memset(after, 0x5A, 32);
    }
    bool intact() const {
        for(int i = 0; i < 32; ++i)
            if(before[i] != 0xA5 || after[i] != 0x5A)
                return false;
        return true;
    }
};

template<typename M>
std::string text(const M& x, std::size_t C, std::size_t R) {
    std::ostringstream o;
    o.precision(21);
    for(std::size_t i = 0; i < C; ++i) {
        o << (i ? ", (" : "((");
        for(std::size_t j = 0; j < R; ++j)
            o << (j ? ", " : "") << x[i][j];
        o << ')';
    }
    o << ')';
    return o.str();
}

template<typename T, std::size_t C, std::size_t R>
void expect(const m::Matrix<T, C, R>& x, const Model<T, C, R>& want, const char* what) {
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j)
            CHECK(num::same(x[i][j], want[i][j]), what << ": " << text(x, C, R) << " instead of " << text(want, C, R));
}

enum Op { plus, minus, times, over };

template<typename T>
T result(Op op, T a, T b) {
    switch(op) {
    case plus: return a + b;
    case minus: return a - b;
    case times: return a * b;
    default: return a / b;
    }
}

template<typename S>
S number(Case& c) {
    if constexpr(std::is_integral_v<S>)
        return c.draw(4) ? num::small<S>(c, 20) : num::any<S>(c);
    else
        return c.draw(6) ? num::real<S>(c) : num::any<S>(c);
}
//! A number that sums of products can be made from
template<typename S>
S factor(Case& c) {
    if constexpr(std::is_integral_v<S>)
        return num::small<S>(c);
    else
        return num::real<S>(c, 6);
}

template<typename S, std::size_t N>
m::Vector<S, N> column(Case& c) {
    m::Vector<S, N> v{};
    for(std::size_t i = 0; i < N; ++i)
        v[i] = number<S>(c);
    return v;
}

template<typename T, std::size_t C, std::size_t R>
struct History {
    Case& c;
    using M   = m::Matrix<T, C, R>;
    using Mod = Model<T, C, R>;
    static_assert(M::columns == C && M::rows == R);
    Place<T, C, R> p[3];
    Mod model[3];
    int effective = 0;

    explicit History(Case& c_) : c(c_) {
        for(auto& x : model)
            x = diagonal(T(0));
        check("a matrix made from 0");
    }

    static Mod diagonal(T s) {
        Mod r;
        for(std::size_t i = 0; i < C; ++i)
            for(std::size_t j = 0; j < R; ++j)
                r[i][j] = i == j ? s : T(0);
        return r;
    }
    static Mod all(T s) {
        Mod r;
        for(auto& x : r)
            x.fill(s);
        return r;
    }

    void check(const char* what) {
        for(int i = 0; i < 3; ++i) {
            CHECK(p[i].intact(), what << ": wrote outside of the matrix");
            expect(p[i].v, model[i], what);
        }
    }

    static Mod apply(Op op, const Mod& a, const Mod& b) {
        Mod r;
        for(std::size_t i = 0; i < C; ++i)
            for(std::size_t j = 0; j < R; ++j)
                r[i][j] = result(op, a[i][j], b[i][j]);
        return r;
    }

    static constexpr const char* names[4] = {"+", "-", "*", "/"};

    template<typename S>
    static M& assign_scalar(Op op, M& a, const S& s) {
        switch(op) {
        case plus: return a += s;
        case minus: return a -= s;
        case times: return a *= s;
        default: return a /= s;
        }
    }

    template<typename S>
    void scalar(Op op, bool self, int a, int d) {
        const S s = number<S>(c);
        LOG("m" << (self ? a : d) << " = m" << a << ' ' << names[op] << (self ? "= (" : " (") << type_name<S>() << ") "
                << num::printable(s));
        const Mod want = apply(op, model[a], all(static_cast<T>(s)));
        const M& x     = p[a].v;
        if(self) {
            CHECK(&assign_scalar(op, p[a].v, s) == &p[a].v, "the assigning operator returns its left side");
            d = a;
        }
        else
            switch(op) {
            case plus: p[d].v = x + s; break;
            case minus: p[d].v = x - s; break;
            case times: p[d].v = x * s; break;
            default: p[d].v = x / s;
            }
        model[d] = want;
        ++effective;
    }

    void scalar_of_itself(Op op, int a) {
        const std::size_t i = c.draw(C), j = c.draw(R);
        LOG("m" << a << ' ' << names[op] << "= its own entry " << i << ' ' << j);
        const Mod want = apply(op, model[a], all(model[a][i][j]));
        assign_scalar(op, p[a].v, p[a].v[i][j]);
        model[a] = want;
        ++effective;
    }

    template<typename S>
    m::Matrix<S, C, R> other(Mod& as_T) {
        m::Matrix<S, C, R> x{0};
        for(std::size_t i = 0; i < C; ++i)
            for(std::size_t j = 0; j < R; ++j) {
                x[i][j]    = number<S>(c);
                as_T[i][j] = static_cast<T>(x[i][j]);
            }
        return x;
    }

    template<typename S>
    void matrix(bool negative, bool self, int a, int d) {
        Mod b;
        const auto s = other<S>(b);
        LOG("m" << (self ? a : d) << " = m" << a << (negative ? " - " : " + ") << (self ? "= (" : " (") << type_name<S>()
                << ") " << text(s, C, R));
        const Mod want = apply(negative ? minus : plus, model[a], b);
        const M& x     = p[a].v;
        if(self) {
            M& r = negative ? p[a].v -= s : p[a].v += s;
            CHECK(&r == &p[a].v, "the assigning operator returns its left side");
            d = a;
        }
        else if(negative)
            p[d].v = x - s;
        else
            p[d].v = x + s;
        model[d] = want;
        ++effective;
    }

    void aliased(bool negative, bool self, int a, int b, int d) {
        LOG("m" << (self ? a : d) << " = m" << a << (negative ? " -" : " +") << (self ? "= m" : " m") << b);
        const Mod want = apply(negative ? minus : plus, model[a], model[b]);
        if(self) {
            negative ? p[a].v -= p[b].v : p[a].v += p[b].v;
            d = a;
        }
        else
            p[d].v = negative ? p[a].v - p[b].v : p[a].v + p[b].v;
        model[d] = want;
        ++effective;
    }

    template<typename S>
    void convert(int d) {
        Mod b;
        const auto s = other<S>(b);
        LOG("m" << d << " = Matrix<" << type_name<S>() << "> " << text(s, C, R));
        if(c.draw(2))
            p[d].v = M(s);
        else {
            auto& r = (p[d].v = s);
            CHECK(&r == &p[d].v, "assignment returns its left side");
        }
        model[d] = b;
        ++effective;
    }

    template<std::size_t I>
    auto mixed_column() {
        if constexpr(I % 3 == 0)
            return column<T, R>(c);
        else if constexpr(I % 3 == 1)
            return column<int, R>(c);
        else
            return column<double, R>(c);
    }
    template<std::size_t... I, typename... V>
    void from_columns(int d, std::index_sequence<I...>, const V&... v) {
        p[d].v = M(v...);
        for(std::size_t j = 0; j < R; ++j)
            ((model[d][I][j] = static_cast<T>(v[j])), ...);
        LOG("m" << d << " = columns " << text(model[d], C, R));
        if constexpr(std::conjunction_v<std::is_same<V, m::Vector<T, R>>...>) {
            const m::Matrix deduced(v...);
            static_assert(std::is_same_v<decltype(deduced), const M>);
            expect(deduced, model[d], "a matrix with deduced type");
        }
    }
    template<std::size_t... I>
    void columns(int d, std::index_sequence<I...> seq) {
        if(c.draw(2))
            from_columns(d, seq, column<T, R>(I >= C ? c : c)...);
        else
            from_columns(d, seq, mixed_column<I>()...);
        ++effective;
    }

    void write(int d) {
        const std::size_t i = c.draw(C), j = c.draw(R);
        if(c.draw(2)) {
            const T v = number<T>(c);
            LOG("m" << d << '[' << i << "][" << j << "] = " << v);
            p[d].v[i][j]   = v;
            model[d][i][j] = v;
        }
        else {
            const auto v = column<T, R>(c);
            LOG("m" << d << '[' << i << "] = a column");
            p[d].v[i] = v;
            for(std::size_t k = 0; k < R; ++k)
                model[d][i][k] = v[k];
        }
    }

    void read(int a) {
        const M& x = p[a].v;
        for(std::size_t i = 0; i < C; ++i) {
            const auto col = x.column(i);
            static_assert(std::is_same_v<decltype(col), const m::Vector<T, R>>);
            for(std::size_t j = 0; j < R; ++j)
                CHECK(num::same(col[j], model[a][i][j]), "column(" << i << ") of " << text(x, C, R));
        }
        for(std::size_t j = 0; j < R; ++j) {
            const auto row = x.row(j);
            static_assert(std::is_same_v<decltype(row), const m::Vector<T, C>>);
            for(std::size_t i = 0; i < C; ++i)
                CHECK(num::same(row[i], model[a][i][j]), "row(" << j << ") of " << text(x, C, R));
        }
    }

    void compare(int a, int b) {
        M x = p[a].v, y = p[b].v;
        Mod u = model[a], w = model[b];
        const std::size_t same = c.draw(C * R + 1);
        for(std::size_t k = 0; k < same; ++k)
            y[k / R][k % R] = x[k / R][k % R], w[k / R][k % R] = u[k / R][k % R];
        bool eq = true;
        int ord = 0;
        for(std::size_t k = 0; k < C * R; ++k) {
            const T l = u[k / R][k % R], r = w[k / R][k % R];
            eq = eq && l == r;
            if(ord == 0)
                ord = num::order_of(l, r);
        }
        const M& cx = x;
        const M& cy = y;
        LOG("compare " << text(x, C, R) << " and " << text(y, C, R));
        CHECK((cx == cy) == eq && (cx != cy) == !eq, text(x, C, R) << " == " << text(y, C, R));
        CHECK(num::order(cx <=> cy) == ord, text(x, C, R) << " <=> " << text(y, C, R));
        CHECK((cx < cy) == (ord == -1) && (cx > cy) == (ord == 1), text(x, C, R) << " < " << text(y, C, R));
        ++effective;
    }

    M factors() {
        M x{0};
        for(std::size_t i = 0; i < C; ++i)
            for(std::size_t j = 0; j < R; ++j)
                x[i][j] = factor<T>(c);
        return x;
    }

    template<typename S>
    void times_vector() {
        const M x = factors();
        m::Vector<S, C> v{};
        for(std::size_t i = 0; i < C; ++i)
            v[i] = factor<S>(c);
        LOG(text(x, C, R) << " * Vector<" << type_name<S>() << '>');
        const auto r = x * v;
        static_assert(std::is_same_v<decltype(r), const m::Vector<T, R>>);
        for(std::size_t j = 0; j < R; ++j) {
            ld sum = 0, size = 0;
            for(std::size_t i = 0; i < C; ++i) {
                const ld t = static_cast<ld>(x[i][j]) * static_cast<ld>(static_cast<T>(v[i]));
                sum += t, size += std::abs(t);
            }
            CHECK(num::near(r[j], sum, size, 12), text(x, C, R) << " * vector: " << r[j] << " instead of " << sum);
        }
        ++effective;
    }

    template<typename S, std::size_t C2>
    void times_matrix() {
        const M x = factors();
        m::Matrix<S, C2, C> y{0};
        for(std::size_t i = 0; i < C2; ++i)
            for(std::size_t j = 0; j < C; ++j)
                y[i][j] = factor<S>(c);
        LOG(text(x, C, R) << " * Matrix<" << type_name<S>() << "> " << text(y, C2, C));
        const auto r = x * y;
        static_assert(std::is_same_v<decltype(r), const m::Matrix<T, C2, R>>);
        for(std::size_t k = 0; k < C2; ++k)
            for(std::size_t j = 0; j < R; ++j) {
                ld sum = 0, size = 0;
                for(std::size_t i = 0; i < C; ++i) {
                    const ld t = static_cast<ld>(x[i][j]) * static_cast<ld>(static_cast<T>(y[k][i]));
                    sum += t, size += std::abs(t);
                }
                CHECK(num::near(r[k][j], sum, size, 12),
                      text(x, C, R) << " * " << text(y, C2, C) << ": entry " << k << ' ' << j << " is " << r[k][j]
                                    << " instead of " << sum);
            }
        ++effective;
    }

    void embed(int d) {
        if constexpr(C == 4 && R == 4) {
            auto go = [&]<typename S>(S) {
                m::Matrix<S, 3, 3> x{0};
                model[d] = diagonal(T(1));
                for(std::size_t i = 0; i < 3; ++i)
                    for(std::size_t j = 0; j < 3; ++j) {
                        x[i][j]        = number<S>(c);
                        model[d][i][j] = static_cast<T>(x[i][j]);
                    }
                LOG("m" << d << " = 3x3 of " << type_name<S>());
                p[d].v = M(x);
                ++effective;
            };
            if(c.draw(2))
                go(T{});
            else
                go(0.0);
        }
    }

    void step() {
        using O     = std::conditional_t<std::is_same_v<T, double>, float, double>;
        const int a = static_cast<int>(c.draw(3)), d = static_cast<int>(c.draw(3)), b = static_cast<int>(c.draw(3));
        const Op op     = static_cast<Op>(c.draw(4));
        const bool self = c.draw(2), neg = c.draw(2);
        switch(c.draw(17)) {
        case 0:
        case 1: columns(d, std::make_index_sequence<C>()); break;
        case 2: convert<O>(d); break;
        case 3:
            switch(c.draw(4)) {
            case 0: p[d].v = M(), model[d] = diagonal(T(1)); break;
            case 1: {
                const T s = number<T>(c);
                LOG("m" << d << " = M(" << s << ")");
                p[d].v = M(s), model[d] = diagonal(s);
                break;
            }
            case 2: {
                const double s = number<double>(c);
                LOG("m" << d << " = M(" << s << ")");
                p[d].v = M(s), model[d] = diagonal(static_cast<T>(s));
                break;
            }
            default: {
                const int s = number<int>(c);
                LOG("m" << d << " = M(" << s << ")");
                p[d].v = M(s), model[d] = diagonal(static_cast<T>(s));
            }
            }
            break;
        case 4: write(d); break;
        case 5: compare(a, b); break;
        case 6: {
            LOG("m" << d << " = -m" << a);
            Mod want;
            for(std::size_t i = 0; i < C; ++i)
                for(std::size_t j = 0; j < R; ++j)
                    want[i][j] = -model[a][i][j];
            p[d].v   = -std::as_const(p[a].v);
            model[d] = want;
            ++effective;
            break;
        }
        case 7: p[d].v = p[a].v, model[d] = model[a]; break;
        case 8: embed(d); break;
        case 9:
            if(c.draw(2))
                scalar<T>(op, self, a, d);
            else if(c.draw(2))
                scalar<int>(op, self, a, d);
            else
                scalar<double>(op, self, a, d);
            break;
        case 10: scalar_of_itself(op, a); break;
        case 11:
        case 12:
            if(c.draw(2))
                matrix<T>(neg, self, a, d);
            else
                matrix<O>(neg, self, a, d);
            break;
        case 13: aliased(neg, self, a, b, d); break;
        case 14: read(a); break;
        case 15:
            if(c.draw(2))
                times_vector<T>();
            else if(c.draw(2))
                times_vector<O>();
            else
                times_vector<int>();
            break;
        default:
            switch(c.draw(4)) {
            case 0: times_matrix<T, C>(); break;
            case 1: times_matrix<T, R>(); break;
            case 2: times_matrix<T, (C == 2 ? 3 : 2)>(); break;
            default: times_matrix<O, 4>(); break;
            }
        }
        check("after the operation");
    }
};

template<typename T, std::size_t C, std::size_t R>
void history(Case& c) {
    History<T, C, R> h(c);
    c.begin_loop({3, 6, 12});
    while(c.more())
        h.step();
    if(h.effective >= 3)
        c.nontrivial();
    c.label(type_name<T>());
}

SUB_T(float_2x2, (history<float, 2, 2>), 5000, 100000);
SUB_T(float_3x3, (history<float, 3, 3>), 5000, 100000);
SUB_T(float_4x4, (history<float, 4, 4>), 8000, 200000);
SUB_T(float_2x3, (history<float, 2, 3>), 5000, 100000);
SUB_T(float_3x2, (history<float, 3, 2>), 5000, 100000);
SUB_T(float_4x3, (history<float, 4, 3>), 5000, 100000);
SUB_T(float_5x4, (history<float, 5, 4>), 5000, 100000);
SUB_T(double_3x3, (history<double, 3, 3>), 5000, 100000);
SUB_T(double_4x4, (history<double, 4, 4>), 8000, 200000);
SUB_T(double_3x4, (history<double, 3, 4>), 5000, 100000);
SUB_T(double_4x2, (history<double, 4, 2>), 5000, 100000);
SUB_T(double_2x4, (history<double, 2, 4>), 5000, 100000);
SUB_T(double_1x3, (history<double, 1, 3>), 3000, 50000);
SUB_T(double_3x1, (history<double, 3, 1>), 3000, 50000);

template<typename V, typename T, std::size_t C, std::size_t R>
constexpr bool is = std::is_same_v<V, m::Matrix<T, C, R>>;
static_assert(is<m::mat2, float, 2, 2> && is<m::mat3, float, 3, 3> && is<m::mat4, float, 4, 4>);
static_assert(is<m::mat2x2, float, 2, 2> && is<m::mat2x3, float, 2, 3> && is<m::mat2x4, float, 2, 4>);
static_assert(is<m::mat3x2, float, 3, 2> && is<m::mat3x3, float, 3, 3> && is<m::mat3x4, float, 3, 4>);
static_assert(is<m::mat4x2, float, 4, 2> && is<m::mat4x3, float, 4, 3> && is<m::mat4x4, float, 4, 4>);
static_assert(is<m::dmat2, double, 2, 2> && is<m::dmat3, double, 3, 3> && is<m::dmat4, double, 4, 4>);
static_assert(is<m::dmat2x2, double, 2, 2> && is<m::dmat2x3, double, 2, 3> && is<m::dmat2x4, double, 2, 4>);
static_assert(is<m::dmat3x2, double, 3, 2> && is<m::dmat3x3, double, 3, 3> && is<m::dmat3x4, double, 3, 4>);
static_assert(is<m::dmat4x2, double, 4, 2> && is<m::dmat4x3, double, 4, 3> && is<m::dmat4x4, double, 4, 4>);

// K01: histories that can be evaluated at compile time as well as run.
// Each domain is a function of a sequence of numbers to a trace of everything observed.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <functional>
#include <memory>
#include <numeric>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <xme/container/container.hpp>
#include <xme/container/heap.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/math/math.hpp>
#include <xme/math/matrices/functions.hpp>
#include <xme/math/matrices/transformation.hpp>
#include <xme/math/vectors/functions.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

namespace k {
using u64 = unsigned long long;

struct In {
    const int* p;
    int n;
    constexpr int next(int bound) {
        if(n == 0)
            return 0;
        --n;
        return *p++ % bound;
    }
    constexpr bool more() const { return n > 0; }
};

struct Trace {
    u64 h   = 14695981039346656037ull;
    int len = 0;
    constexpr void put(auto x) {
        if constexpr(std::is_floating_point_v<decltype(x)>) {
            if constexpr(sizeof(x) == 8)
                mix(std::bit_cast<u64>(x));
            else
                mix(std::bit_cast<unsigned>(x));
        }
        else
            mix(static_cast<u64>(x));
    }
    constexpr void mix(u64 v) { h = (h ^ v) * 1099511628211ull, h ^= h >> 29, ++len; }
};

//! Owns memory; copies deeply. Lost, doubly destroyed or never created ones are errors of the evaluation
struct Own {
    int* p = nullptr;
    constexpr Own() : p(new int(0)) {}
    constexpr Own(int v) : p(new int(v)) {}
    constexpr Own(const Own& o) : p(o.p ? new int(*o.p) : nullptr) {}
    constexpr Own(Own&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    constexpr Own& operator=(const Own& o) {
        if(this != &o) {
            int* q = o.p ? new int(*o.p) : nullptr;
            delete p;
            p = q;
        }
        return *this;
    }
    constexpr Own& operator=(Own&& o) noexcept {
        std::swap(p, o.p);
        return *this;
    }
    constexpr ~Own() { delete p; }
    constexpr operator int() const { return p ? *p : -1; }
    friend constexpr bool operator==(const Own& a, const Own& b) { return int(a) == int(b); }
    friend constexpr auto operator<=>(const Own& a, const Own& b) { return int(a) <=> int(b); }
};

template<typename T>
constexpr void show(Trace& t, const xme::Array<T>& a) {
    t.put(a.size());
    for(const T& x : a)
        t.put(static_cast<int>(x));
    t.put(a.empty());
    t.put(a.capacity() >= a.size());
    t.put(a.end() - a.begin());
    if(!a.empty())
        t.put(static_cast<int>(a.front())), t.put(static_cast<int>(a.back())), t.put(static_cast<int>(a[a.size() / 2]));
}

template<typename T>
constexpr Trace array(In in) {
    Trace t;
    xme::Array<T> a, b{T(1), T(2), T(3)};
    while(in.more()) {
        if(a.size() + b.size() > 300)
            a.clear(), b = {T(1)};
        const int op = in.next(19), n = static_cast<int>(a.size());
        const T v(in.next(100));
        const int pos = in.next(n + 1);
        switch(op) {
        case 0: a.push_back(v); break;
        case 1: a.emplace_back(in.next(100)); break;
        case 2: { const auto at = a.insert(a.begin() + pos, v); t.put(at - a.begin()); } break;
        case 3: { const auto at = a.insert(a.begin() + pos, b.begin(), b.end()); t.put(at - a.begin()); } break;
        case 4: if(n) { const auto at = a.erase(a.begin() + pos % n); t.put(at - a.begin()); } break;
        case 5: { const auto at = a.erase(a.begin() + pos / 2, a.begin() + pos); t.put(at - a.begin()); } break;
        case 6: if(n) a.pop_back(); break;
        case 7: a.reserve(in.next(20)); break;
        case 8: a.resize(in.next(20)); break;
        case 9: b = a; break;
        case 10: a.swap(b); break;
        case 11: b = std::move(a); a = xme::Array<T>(3, v); break;
        case 12: a.clear(); break;
        case 13: { xme::Array<T> c(b); c.push_back(v); show(t, c); break; }
        case 14: a.push_back(b); break;
        case 15: if(n) a.push_back(a[pos % n]); break;
        case 16: if(n) { const auto at = a.insert(a.begin() + pos, a[pos % n]); t.put(at - a.begin()); } break;
        case 17: { xme::Array<T> c(std::move(b)); t.put(b.size()); b = std::move(c); break; }
        default: a = {v, v, T(9)};
        }
        show(t, a);
    }
    show(t, b);
    t.put(std::accumulate(a.begin(), a.end(), 0u, [](unsigned s, const T& x) { return s * 3 + static_cast<unsigned>(int(x)); }));
    return t;
}

template<typename T, typename Cmp>
constexpr Trace heap(In in) {
    Trace t;
    std::array<int, 6> first{};
    const int n = in.next(6);
    for(int i = 0; i < n; ++i)
        first[i] = in.next(30);
    xme::Array<T> start(first.begin(), first.begin() + n);
    xme::Heap<T, xme::Array<T>, Cmp> h(start);
    while(in.more()) {
        const int op = in.next(3);
        if(op == 0)
            h.push(T(in.next(30)));
        else if(op == 1)
            h.emplace(in.next(30));
        else if(!h.empty())
            h.pop();
        t.put(h.size());
        if(!h.empty())
            t.put(int(h.front()));
    }
    auto copy = h;
    while(!copy.empty())
        t.put(int(copy.front())), copy.pop();
    t.put(h.size());
    return t;
}

constexpr Trace view(In in) {
    Trace t;
    std::array<int, 12> a{};
    for(int& x : a)
        x = in.next(100);
    xme::ArrayView<int> v(a.begin(), static_cast<std::size_t>(in.next(13)));
    while(in.more()) {
        const std::size_t n = v.size();
        switch(in.next(8)) {
        case 0: v = v.first(in.next(static_cast<int>(n) + 1)); break;
        case 1: v = v.last(in.next(static_cast<int>(n) + 1)); break;
        case 2: { const int o = in.next(static_cast<int>(n) + 1); v = v.subview(o, in.next(static_cast<int>(n) - o + 1)); break; }
        case 3: if(n) v[in.next(static_cast<int>(n))] = in.next(100); break;
        case 4: v = xme::ArrayView<int>(a); break;
        case 5: { xme::ArrayView<int, 12> s(a); v = xme::ArrayView<int>(s.subview<3, 5>().begin(), 5); t.put(s.first<2>().back()); t.put(s.last<4>().front()); break; }
        case 6: { int c[4] = {4, 5, 6, in.next(9)}; xme::ArrayView<int> w(c); t.put(w.size()); t.put(w.back()); break; }
        default: { const auto& ca = a; xme::ArrayView<const int> w(ca); t.put(w[in.next(12)]); }
        }
        t.put(v.size());
        t.put(v.size_bytes());
        t.put(v.empty());
        for(int x : v)
            t.put(x);
        if(!v.empty())
            t.put(v.front()), t.put(v.back());
    }
    return t;
}

constexpr Trace tuples(In in) {
    using xme::get;
    Trace t;
    using Tup = xme::Tuple<int, Own, double, Own>;
    Tup a{in.next(10), Own(in.next(10)), in.next(10) * .5, Own(in.next(10))};
    Tup b{in.next(10), Own(in.next(10)), in.next(10) * .5, Own(in.next(10))};
    xme::Pair<Own, int> p{Own(in.next(10)), in.next(10)}, q{Own(in.next(10)), in.next(10)};
    do {
        switch(in.next(14)) {
        case 0: a = b; break;
        case 1: a.swap(b); break;
        case 2: swap(a, b); break;
        case 3: get<1>(a) = Own(in.next(10)); break;
        case 4: { Tup c(std::move(b)); b = std::move(c); break; }
        case 5: p = q; break;
        case 6: p.swap(q); break;
        case 7: p = xme::make_pair(get<1>(a), get<0>(a)); break;
        case 8: p = std::pair<int, int>{in.next(10), in.next(10)}; break;
        case 9: { auto c = xme::tuple_cat(a, xme::make_tuple(in.next(5)), p); t.put(int(get<1>(c))); t.put(get<4>(c)); t.put(int(get<5>(c))); break; }
        case 10: t.put(xme::apply([](int x, const Own& y, double z, const Own& w) { return x + 10 * int(y) + z + 1000 * int(w); }, a)); break;
        case 11: { int i = 0; Own o; xme::tie(i, o) = xme::Tuple<int, Own>{in.next(9), Own(in.next(9))}; t.put(i); t.put(int(o)); break; }
        case 12: { auto& [w, x, y, z] = a; w += 1; y += .25; t.put(int(x) + int(z)); break; }
        default: { auto [x, y] = q; t.put(int(x) + y); t.put(int(xme::apply([](const Own& f, int) { return int(f); }, p))); }
        }
        t.put(get<0>(a)), t.put(int(get<1>(a))), t.put(get<2>(a)), t.put(int(get<3>(std::as_const(a))));
        t.put(int(p.first)), t.put(p.second), t.put(int(get<0>(q))), t.put(get<1>(std::as_const(q)));
        t.put(a == b), t.put(p == q), t.put(p < q), t.put(a < b), t.put(a != b);
    } while(in.more());
    return t;
}

template<std::size_t N, typename V>
constexpr void show_vector(Trace& t, const V& v) {
    for(std::size_t i = 0; i < N; ++i)
        t.put(v[i]);
}

template<typename T, std::size_t N>
constexpr Trace vectors(In in) {
    using namespace xme::math;
    using V = Vector<T, N>;
    Trace t;
    V a(0), b(1), c(2);
    auto fill = [&](V& v) {
        for(std::size_t i = 0; i < N; ++i)
            v[i] = static_cast<T>(in.next(19) - 9);
    };
    fill(a), fill(b);
    while(in.more()) {
        switch(in.next(18)) {
        case 0: fill(a); break;
        case 1: fill(b); break;
        case 2: c = a + b; break;
        case 3: c = a - b; break;
        case 4: c = a * T(in.next(5)); break;
        case 5: c = V(in.next(7)) - a; break;
        case 6: c = -a; break;
        case 7: a = b; break;
        case 8: a += T(in.next(3)); break;
        case 9: a -= b; for(std::size_t i = 0; i < N; ++i) a[i] = static_cast<T>(static_cast<int>(a[i]) % 50); break;
        case 10: t.put(dot(a, b)); break;
        case 11: t.put(a == b), t.put(a < b), t.put(a != c), t.put(a >= c); break;
        case 12: c = a / T(in.next(4) + 1); break;
        case 13: if constexpr(std::is_floating_point_v<T>) c = lerp(a, b, T(in.next(5)) / 4); break;
        case 14: { const auto s = sign(a); for(std::size_t i = 0; i < N; ++i) t.put(static_cast<int>(s[i])); break; }
        case 15: if constexpr(N == 3) c = cross(a, b), show_vector<N>(t, c), c = V(1); break;
        case 16: { Vector<double, N> d(a); Vector<int, N> e(d); show_vector<N>(t, d); show_vector<N>(t, e); break; }
        default: if constexpr(N == 4) { Vector<T, 3> s(a[0], a[1], a[2]); V w(s, 3); V x(Vector<T, 2>(a[0], b[1]), Vector<T, 2>(1, 2)); show_vector<N>(t, w); show_vector<N>(t, x); }
        }
        show_vector<N>(t, a), show_vector<N>(t, c);
        if constexpr(N == 2)
            t.put(a.x), t.put(c.y);
        if constexpr(N == 4)
            t.put(a.w), t.put(c.z);
    }
    return t;
}

template<typename M, std::size_t C, std::size_t R>
constexpr void show_matrix(Trace& t, const M& m) {
    for(std::size_t c = 0; c < C; ++c)
        for(std::size_t r = 0; r < R; ++r)
            t.put(m[c][r]);
}

template<std::size_t C, std::size_t R>
constexpr Trace matrices(In in) {
    using namespace xme::math;
    using M = Matrix<double, C, R>;
    Trace t;
    M a(1), b(2), m(0);
    auto fill = [&](M& x) {
        for(std::size_t c = 0; c < C; ++c)
            for(std::size_t r = 0; r < R; ++r)
                x[c][r] = in.next(9) - 4;
    };
    fill(a), fill(b);
    while(in.more()) {
        switch(in.next(15)) {
        case 0: fill(a); break;
        case 1: fill(b); break;
        case 2: m = a + b; break;
        case 3: m = a - b; break;
        case 4: m = a * double(in.next(5)); break;
        case 5: m = -a; break;
        case 6: a = b; break;
        case 7: m += a; break;
        case 8: m -= 1; break;
        case 9: m = a / double(in.next(4) + 1); break;
        case 10: t.put(a == b), t.put(a < b); break;
        case 11: { Vector<double, C> v(in.next(5)); v[0] = 1; const auto r = a * v; show_vector<R>(t, r); break; }
        case 12: { const auto x = transpose(a); show_matrix<decltype(x), R, C>(t, x); const auto y = a * x; show_matrix<decltype(y), R, R>(t, y); break; }
        case 13: if constexpr(C == R && C <= 4) t.put(determinant(a)); m = hadamard_product(a, b); break;
        default: if constexpr(C == 4 && R == 4) { m = translate(a, Vector<double, 3>(1, 2, in.next(5))); show_matrix<M, C, R>(t, m); m = scale(a, Vector<double, 3>(1, 2, in.next(5))); }
        }
        show_matrix<M, C, R>(t, a), show_matrix<M, C, R>(t, m);
        for(std::size_t c = 0; c < C; ++c)
            for(std::size_t r = 0; r < R; ++r)
                m[c][r] = static_cast<int>(m[c][r]) % 30;
    }
    return t;
}

//! Values with a fraction, so that few roots are exact
template<typename T>
constexpr T fraction(In& in) { return static_cast<T>(in.next(4001) - 2000) / 64; }

template<typename T>
constexpr bool near(T x, T y) {
    const T d = x < y ? y - x : x - y, m = (x < 0 ? -x : x) + (y < 0 ? -y : y) + 1;
    return d <= m * 64 * std::numeric_limits<T>::epsilon();
}

//! Square roots; only some compilers know them in constant expressions
template<typename T, std::size_t N>
constexpr Trace roots(In in) {
    using namespace xme::math;
    Trace t;
#ifndef __clang__
    using V = Vector<T, N>;
    do {
        V a(0), b(0);
        for(std::size_t i = 0; i < N; ++i)
            a[i] = fraction<T>(in), b[i] = fraction<T>(in);
        a[0] += 40;
        t.put(length(a)), t.put(a.length()), t.put(distance(a, b)), t.put(length(b - a));
        show_vector<N>(t, normalize(a)), show_vector<N>(t, a.normalize());
        show_vector<N>(t, reflect(b, normalize(a))), show_vector<N>(t, faceforward(a, b, V(1)));
        Vector<int, N> whole(1);
        for(std::size_t i = 0; i < N; ++i)
            whole[i] = in.next(100);
        t.put(whole.length());
    } while(in.more());
#endif
    return t;
}

template<typename T>
constexpr Trace transformations(In in) {
    using namespace xme::math;
    using M = Matrix<T, 4, 4>;
    Trace t;
    do {
        M a(1);
        for(std::size_t c = 0; c < 4; ++c)
            for(std::size_t r = 0; r < 4; ++r)
                a[c][r] = fraction<T>(in);
        Vector<T, 3> v(0);
        for(std::size_t i = 0; i < 3; ++i)
            v[i] = fraction<T>(in);
        M m = translate(a, v);
        show_matrix<M, 4, 4>(t, m);
        show_matrix<M, 4, 4>(t, scale(a, v));
        show_vector<4>(t, m.row(in.next(4)));
        const T l = fraction<T>(in), b = fraction<T>(in), n = fraction<T>(in);
        const T r = l + 1 + in.next(9), u = b + 1 + in.next(9), f = n + 1 + in.next(9);
        show_matrix<M, 4, 4>(t, ortho(l, r, b, u, n, f)), show_matrix<M, 4, 4>(t, ortho_lh(l, r, b, u, n, f)), show_matrix<M, 4, 4>(t, ortho_rh(l, r, b, u, n, f));
        show_matrix<M, 4, 4>(t, perspective(l, r, b, u, n, f)), show_matrix<M, 4, 4>(t, perspective_lh(l, r, b, u, n, f));
        show_matrix<M, 4, 4>(t, perspective_rh(l, r, b, u, n, f));
        t.put(radians(l)), t.put(degrees(l));
        const Vector<T, 5> s = sign(Vector<T, 5>(0)), w = lerp(Vector<T, 5>(l), Vector<T, 5>(r), n);
        show_vector<5>(t, s), show_vector<5>(t, w);
#ifndef __clang__
        const T angle = 1 + fraction<T>(in) / 64;
        const T sine = std::sin(angle), cosine = std::cos(angle), tangent = std::tan(angle / 2);
        t.put(near(sec(angle) * cosine, T(1))), t.put(near(csc(angle + 4) * std::sin(angle + 4), T(1))), t.put(near(cot(angle + 4) * std::tan(angle + 4), T(1)));
        t.put(near(std::sin(arcsin(l / 64)), l / 64)), t.put(near(std::cos(arccos(l / 64)), l / 64)), t.put(near(std::tan(arctan(l)) / (1 + l * l), l / (1 + l * l)));
        const M z = rotate(a, angle, Vector<T, 3>(0, 0, 1));
        for(std::size_t i = 0; i < 4; ++i)
            t.put(near(z[0][i], a[0][i] * cosine + a[1][i] * sine)), t.put(near(z[1][i], a[1][i] * cosine - a[0][i] * sine)), t.put(z[3][i]), t.put(near(z[2][i], a[2][i]));
        const T field = 1 + static_cast<T>(in.next(100)) / 100;
        t.put(near(perspective(field, T(2), T(1), f)[1][1] * std::tan(field / 2), T(1))), t.put(near(perspective_rh(field, T(2), T(1), T(3))[0][0] * std::tan(field / 2), T(.5)));
        t.put(near(perspective_lh(field, T(2), T(1), T(3))[2][2], T(2)));
#endif
    } while(in.more());
    return t;
}

constexpr Trace quaternions(In in) {
    using Q = xme::math::Quaternion<double>;
    Trace t;
    auto any = [&] { const int w = in.next(9), x = in.next(9), y = in.next(9), z = in.next(9); return Q(w - 4, x - 4, y - 4, z - 4); };
    Q a = any(), b = any();
    do {
        Q c = any();
        switch(in.next(4)) {
        case 0: c = a * b; break;
        case 1: c = a + b; break;
        case 2: c = a - b; break;
        default: a = b, b = any();
        }
        t.put(a == b), t.put(a < c);
        show_vector<4>(t, c);
        t.put(c.w), t.put(c.x), t.put(c.y), t.put(c.z);
        c[in.next(4)] = 7;
        show_vector<4>(t, c);
    } while(in.more());
    return t;
}

constexpr Trace iterators(In in) {
    Trace t;
    std::array<Own, 8> own{Own(1), Own(2), Own(3), Own(4), Own(5), Own(6), Own(7), Own(8)};
    std::array<int, 8> a{};
    for(int& x : a)
        x = in.next(50);
    auto walk = [&](auto b, auto e) {
        auto it = b;
        const int n = static_cast<int>(e - b);
        for(int steps = in.next(8); steps > 0; --steps) {
            const int pos = static_cast<int>(it - b);
            switch(in.next(8)) {
            case 0: if(pos < n) ++it; break;
            case 1: if(pos > 0) --it; break;
            case 2: it += in.next(n - pos + 1); break;
            case 3: it -= in.next(pos + 1); break;
            case 4: if(pos < n) t.put(int(*it++)); break;
            case 5: if(pos > 0) it--; break;
            case 6: it = it + in.next(n - pos + 1); break;
            default: it = it - in.next(pos + 1);
            }
            t.put(it - b), t.put(e - it), t.put(it == e), t.put(it < e), t.put(it >= b);
            if(it != e)
                t.put(int(*it)), t.put(int(it[0]));
        }
    };
    do {
        switch(in.next(7)) {
        case 0: walk(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); break;
        case 1: walk(xme::ConstIterator(a.begin()), xme::ConstIterator(a.end())); break;
        case 2: walk(xme::ReverseIterator(own.end()), xme::ReverseIterator(own.begin())); break;
        case 3: walk(xme::make_const_iterator(own.begin()), xme::make_const_iterator(own.end())); break;
        case 4: walk(xme::ReverseIterator(xme::ConstIterator(a.end())), xme::ReverseIterator(xme::ConstIterator(a.begin()))); break;
        case 5: std::sort(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); break;
        default: { xme::Array<int> copy(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())); walk(copy.begin(), copy.end()); walk(std::as_const(copy).begin(), std::as_const(copy).end()); }
        }
        for(int x : a)
            t.put(x);
    } while(in.more());
    return t;
}

constexpr int weigh(int a, int b, int c) { return a + 10 * b + 100 * c; }
struct Member {
    int n;
    constexpr int mem(int x) const { return n * 7 + x; }
};

constexpr Trace binding(In in) {
    Trace t;
    do {
        const int a = in.next(10), b = in.next(10), c = in.next(10);
        t.put(xme::bind_front(weigh, a)(b, c));
        t.put(xme::bind_front(weigh, a, b)(c));
        t.put(xme::bind_back(weigh, c)(a, b));
        t.put(xme::bind_back(weigh, b, c)(a));
        auto f = xme::bind_front([](Own& o, int k) { o = Own(int(o) + k); return int(o); }, Own(a));
        t.put(f(b)), t.put(f(c));
        auto g = f;
        t.put(g(1)), t.put(f(0));
        auto h = xme::bind_back([](int k, Own&& o) { Own mine(std::move(o)); return int(mine) + k; }, Own(b));
        t.put(std::move(h)(c));
        t.put(xme::bind_front(&Member::mem, Member{a})(b));
        t.put(xme::bind_back(&Member::mem, c)(Member{b}));
        g = std::move(f);
        t.put(g(0));
    } while(in.more());
    return t;
}

constexpr Trace bits(In in) {
    Trace t;
    do {
        u64 n = 0;
        for(int i = in.next(6); i >= 0; --i)
            n ^= 1ull << in.next(64);
        n -= in.next(3);
        t.put(xme::has_single_bit(n));
        t.put(xme::has_single_bit(static_cast<unsigned>(n)));
        t.put(xme::has_single_bit(static_cast<unsigned char>(n)));
        t.put(xme::to_unsigned(static_cast<long long>(n)));
        t.put(xme::to_unsigned(static_cast<int>(n)));
        t.put(xme::to_unsigned(static_cast<signed char>(n)));
        Own o(static_cast<int>(n & 7));
        Own taken(xme::forward_like<int>(o));
        Own copied(xme::forward_like<int&>(taken));
        t.put(int(taken) + int(copied) * 10 + (o.p == nullptr));
    } while(in.more());
    return t;
}

template<typename T>
constexpr Trace algorithms(In in) {
    Trace t;
    std::array<T, 70> a{};
    int n = in.next(71);
    for(T& x : a)
        x = static_cast<T>(in.next(40));
    do {
        const T needle = static_cast<T>(in.next(42));
        const int from = in.next(n + 1), to = from + in.next(n - from + 1);
        t.put(xme::find(a.begin() + from, a.begin() + to, needle) - a.begin());
        t.put(xme::find(a, needle) - a.begin());
        t.put(xme::reverse(a.begin() + from, a.begin() + to) - a.begin());
        for(const T& x : a)
            t.put(static_cast<int>(x));
        if(in.next(3) == 0)
            t.put(xme::reverse(a) - a.begin());
    } while(in.more());
    return t;
}

constexpr Trace memory(In in) {
    Trace t;
    std::allocator<Own> al;
    do {
        const int n = in.next(9), m = in.next(9), k = in.next(9) % (n + 1);
        std::array<int, 9> src{1, 2, 3, 4, 5, 6, 7, 8, 9};
        Own* p = al.allocate(n + 1);
        if(in.next(2)) {
            auto [i, o] = xme::ranges::uninitialized_copy_a(src.begin(), src.begin() + m, p, p + n, al);
            t.put(i - src.begin()), t.put(o - p);
            for(Own* q = p; q != o; ++q)
                t.put(int(*q));
            if(in.next(2))
                xme::ranges::destroy_a(p, o, al);
            else {
                const int h = static_cast<int>(o - p) / 2;
                xme::ranges::destroy_n_a(p, h, al);
                xme::ranges::destroy_n_a(p + h, (o - p) - h, al);
            }
        }
        else {
            Own* o = xme::ranges::uninitialized_fill_n_a(p, k, Own(m), al);
            t.put(o - p);
            for(Own* q = p; q != o; ++q)
                t.put(int(*q)), xme::ranges::destroy_at_a(q, al);
        }
        al.deallocate(p, n + 1);
    } while(in.more());
    return t;
}
}  // namespace k

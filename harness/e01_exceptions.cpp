// E01: an exception thrown by anything the user supplied comes out of the library
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cstdlib>
#include <list>
#include <new>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <xme/container/aligned_data.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>

using pbt::u64;

struct Boom {
    long id;
};
enum : unsigned { copying = 1, moving = 2, comparing = 4, calling = 8, making = 16, allocating = 32 };
static unsigned what;   // what may throw
static long fuse = -1;  // how many more of those succeed
static bool blown;
static void event(unsigned kind) {
    if(fuse >= 0 && (what & kind) && fuse-- == 0) {
        blown = true;
        throw Boom{4711};
    }
}
void* operator new(std::size_t n) {
    if(fuse >= 0 && (what & allocating) && fuse-- == 0) {
        blown = true;
        throw std::bad_alloc();
    }
    if(void* p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

static long living; // objects
//! Anything it does may throw, except moving if it's quiet
template<bool Quiet>
struct El {
    using X = El;
    int v;
    El(int n) : v((event(making), n)) { ++living; }
    El(const X& o) : v((event(copying), o.v)) { ++living; }
    El(X&& o) noexcept(Quiet) : v((Quiet ? void() : event(moving), o.v)) {
        ++living;
        o.v = -1;
    }
    X& operator=(const X& o) {
        event(copying);
        v = o.v;
        return *this;
    }
    X& operator=(X&& o) noexcept(Quiet) {
        if(!Quiet)
            event(moving);
        v   = o.v;
        o.v = this == &o ? v : -1;
        return *this;
    }
    X& operator=(int n) {
        event(making);
        v = n;
        return *this;
    }
    ~El() { --living; }
    friend bool operator==(const X& a, const X& b) {
        event(comparing);
        return a.v == b.v;
    }
    friend std::strong_ordering operator<=>(const X& a, const X& b) {
        event(comparing);
        return a.v <=> b.v;
    }
};
//! A function that owns something
template<typename X>
struct F {
    X x;
    explicit F(int n) : x(n) {}
    int operator()(int a) const {
        event(calling);
        return x.v * 10 + a;
    }
    int operator()(const X& a, const X& b, int c = 0) const {
        event(calling);
        return x.v * 1000 + a.v * 100 + b.v * 10 + c;
    }
    int operator()() const {
        event(calling);
        return x.v;
    }
};

//! One execution, with the given fuse
struct Run {
    long k;
    bool threw = false;
    template<typename Fn>
    void go(Fn fn) {
        blown = false;
        fuse  = k;
        try {
            fn();
        }
        catch(const Boom& b) {
            threw = true;
            fuse  = -1;
            CHECK(b.id == 4711, "another exception came out");
        }
        catch(const std::bad_alloc&) {
            threw = true;
            fuse  = -1;
            CHECK(what & allocating, "bad_alloc came out");
        }
        fuse = -1;
        CHECK(threw == blown, (threw ? "an exception came from nowhere" : "the exception was lost"));
    }
};

//! Everything, failing at the first, second, ... point until it doesn't fail
template<typename Fn>
static void everywhere(Case& c, unsigned kinds, Fn fn) {
    what         = kinds;
    long k       = 0;
    const long before = living;
    for(;; ++k) {
        CHECK(k < 2000, "it never succeeds");
        Run r{k};
        fn(r);
        CHECK(living == before, living - before << " objects are left when the operation " << (r.threw ? "failed" : "succeeded") << " (failure " << k << ")");
        if(!r.threw)
            break;
    }
    LOG("failed in " << k << " ways");
    if(k > 0)
        c.nontrivial();
    if(k > 3)
        c.label("several failures");
}
static unsigned kinds(Case& c, unsigned always, unsigned among) {
    return (always | (static_cast<unsigned>(c.draw(64)) & among));
}

using D = xme::Delegate<int(int)>;
template<typename X>
static void delegates_of(Case& c) {
    const u64 op = c.draw(9);
    const int a = static_cast<int>(c.draw(5)) + 1, b = static_cast<int>(c.draw(5)) + 1;
    const bool empty = c.draw(3) == 0, small = c.draw(4) == 0;
    const unsigned k = kinds(c, copying | moving, allocating | calling);
    LOG("delegates: op " << op << ", " << a << ", " << b << (empty ? ", onto an empty one" : small ? ", onto a small one" : "") << ", what " << k);
    everywhere(c, k, [&](Run& r) {
        D d, e{F<X>(b)};
        F<X> f(b);
        if(small)
            d = [a](int x) { return a * 10 + x; };
        else if(!empty)
            d = F<X>(a);
        const bool had = small || !empty;
        int result = -1;
        bool replaced = false;
        r.go([&] {
            switch(op) {
            case 0: d = e; break;
            case 1: d = f; break;
            case 2: d = std::move(f); break;
            case 3: { D n(e); break; }
            case 4: { D n(f); break; }
            case 5: { D n(std::move(f)); break; }
            case 6: d = std::as_const(f); break;
            case 7: result = e(3); break;
            default: {
                D n(std::move(e));
                d.swap(n);
            }
            }
            replaced = true;
        });
        if(op == 7)
            CHECK(r.threw || result == b * 10 + 3, "the result of the call");
        const bool assigns = op <= 2 || op == 6 || op == 8;
        if(assigns && replaced) {
            CHECK(static_cast<bool>(d) && d(1) == b * 10 + 1, "the new target isn't there");
        }
        else {
            CHECK(static_cast<bool>(d) == had, "a failure changed whether there is a target");
            if(had)
                CHECK(d(1) == a * 10 + 1, "a failure changed the target");
        }
        if(op != 8)
            CHECK(e(2) == b * 10 + 2, "the source was changed");
    });
}
SUB_T(delegates, delegates_of<El<false>>, 4000, 40000);
SUB_T(delegates_quiet, delegates_of<El<true>>, 4000, 40000);

template<typename X>
static void arguments_of(Case& c) {
    const int a = static_cast<int>(c.draw(5)) + 1;
    const u64 op = c.draw(4);
    const unsigned k = kinds(c, copying | calling, moving | making);
    LOG("arguments: op " << op << ", what " << k);
    everywhere(c, k, [&](Run& r) {
        X x(a);
        int calls = 0;
        xme::Delegate<int(X, const X&)> d([&calls](X y, const X& z) {
            event(calling);
            ++calls;
            return y.v * 10 + z.v;
        });
        int result = -1;
        r.go([&] {
            switch(op) {
            case 0: result = d(x, x); break;
            case 1: result = d(std::move(x), X(a)); break;
            case 2: result = xme::bind_front([](X y, const X& z) { event(calling); return y.v * 10 + z.v; }, x)(x); break;
            default: result = xme::bind_back([](X y, X z) { event(calling); return y.v * 10 + z.v; }, x)(x); break;
            }
        });
        if(!r.threw) {
            CHECK(result == a * 11, "the result of the call is " << result);
            CHECK(op > 1 || calls == 1, "called " << calls << " times");
        }
        else
            CHECK(calls == 0, "called although a copy or the call failed");
        if(op != 1)
            CHECK(x.v == a, "the argument was changed");
    });
}
SUB_T(arguments, arguments_of<El<false>>, 3000, 30000);
SUB_T(arguments_quiet, arguments_of<El<true>>, 3000, 30000);

template<typename X, bool Front>
static void binding(Case& c) {
    const int f = static_cast<int>(c.draw(4)) + 1, a = static_cast<int>(c.draw(4)) + 1, b = static_cast<int>(c.draw(4)) + 5;
    const u64 op = c.draw(10);
    const unsigned k = kinds(c, copying, moving | making | calling);
    LOG((Front ? "bind_front" : "bind_back") << ": op " << op << ", what " << k);
    auto bind = [](auto&&... x) {
        if constexpr(Front)
            return xme::bind_front(std::forward<decltype(x)>(x)...);
        else
            return xme::bind_back(std::forward<decltype(x)>(x)...);
    };
    const int want = f * 1000 + a * 100 + b * 10;
    everywhere(c, k, [&](Run& r) {
        F<X> fn(f);
        X x(a), y(b);
        auto bound = bind(F<X>(f), X(a), X(b));
        auto other = bind(F<X>(f + 1), X(a + 1), X(b + 1));
        int result = want;
        r.go([&] {
            switch(op) {
            case 0: result = bind(fn, x, y)(); break;
            case 1: result = bind(std::as_const(fn), std::as_const(x), std::as_const(y))(); break;
            case 2: result = bind(std::move(fn), std::move(x), std::move(y))(); break;
            case 3: { auto n(bound); result = n(); break; }
            case 4: { auto n(std::move(other)); n(); break; }
            case 5: { auto n = std::as_const(bound); result = std::move(n)(); break; }
            case 6: other = bound; result = other(); break;
            case 7: other = std::move(bound); result = std::as_const(other)(); break;
            case 8: result = bind(std::as_const(fn), X(a), b)(); break;
            default: result = std::move(bound)(); break;
            }
        });
        if(!r.threw)
            CHECK(result == want, "the call gives " << result << ", not " << want);
        if(op != 2)
            CHECK(fn.x.v == f && x.v == a && y.v == b, "an argument was changed");
        if(op != 7 && op != 9)
            CHECK(bound() == want, "the source was changed");
    });
}
static void bf(Case& c) { binding<El<false>, true>(c); }
static void bfq(Case& c) { binding<El<true>, true>(c); }
static void bb(Case& c) { binding<El<false>, false>(c); }
static void bbq(Case& c) { binding<El<true>, false>(c); }
SUB_T(binding_front, bf, 3000, 30000);
SUB_T(binding_back, bb, 3000, 30000);
SUB_T(binding_front_quiet, bfq, 3000, 30000);
SUB_T(binding_back_quiet, bbq, 3000, 30000);

//! Throws only when it's called in the ways of the mask: lvalue, constant lvalue, rvalue, constant rvalue
template<unsigned M>
struct Ways {
    static int made(int way) {
        event(calling);
        return way;
    }
    template<typename... A>
    int operator()(A&&...) & noexcept(!(M & 1)) {
        if constexpr(M & 1)
            return made(1);
        return 1;
    }
    template<typename... A>
    int operator()(A&&...) const& noexcept(!(M & 2)) {
        if constexpr((M & 2) != 0)
            return made(2);
        return 2;
    }
    template<typename... A>
    int operator()(A&&...) && noexcept(!(M & 4)) {
        if constexpr((M & 4) != 0)
            return made(3);
        return 3;
    }
    template<typename... A>
    int operator()(A&&...) const&& noexcept(!(M & 8)) {
        if constexpr((M & 8) != 0)
            return made(4);
        return 4;
    }
};
//! Never throws itself, but takes what it's given by value
struct ByValue {
    int operator()(El<true> x, const El<true>& y) const noexcept {
        return x.v * 10 + y.v;
    }
};
//! Never throws itself, but making what it takes may
struct Converts {
    int operator()(const El<false>& x, int y) const noexcept { return x.v * 10 + y; }
};
//! Throws in the way that its bound argument is given, by overload
struct Given {
    int operator()(El<false>&) const noexcept { return 1; }
    int operator()(const El<false>&) const { event(calling); return 2; }
    int operator()(El<false>&&) const { event(calling); return 3; }
    int operator()(const El<false>&&) const noexcept { return 4; }
};
struct Given2 {
    int operator()(El<false>&) const { event(calling); return 1; }
    int operator()(const El<false>&) const noexcept { return 2; }
    int operator()(El<false>&&) const noexcept { return 3; }
    int operator()(const El<false>&&) const { event(calling); return 4; }
};
template<bool Front, unsigned M>
static void ways(Case& c) {
    const u64 way = c.draw(4), target = c.draw(5);
    const int a = static_cast<int>(c.draw(5)) + 1, b = static_cast<int>(c.draw(5)) + 1;
    LOG((Front ? "bind_front" : "bind_back") << " called in way " << way + 1 << ", target " << target << " throws in " << M);
    auto bind = [](auto&&... x) {
        if constexpr(Front)
            return xme::bind_front(std::forward<decltype(x)>(x)...);
        else
            return xme::bind_back(std::forward<decltype(x)>(x)...);
    };
    everywhere(c, calling | copying | moving | making, [&](Run& r) {
        El<true> x(a), y(b);
        El<false> z(a);
        auto one = [&](auto&& bound, int want, auto&&... args) {
            int result = -1;
            r.go([&] {
                switch(way) {
                case 0: result = bound(std::forward<decltype(args)>(args)...); break;
                case 1: result = std::as_const(bound)(std::forward<decltype(args)>(args)...); break;
                case 2: result = std::move(bound)(std::forward<decltype(args)>(args)...); break;
                default: result = std::move(std::as_const(bound))(std::forward<decltype(args)>(args)...); break;
                }
            });
            CHECK(r.threw || result == want, "the call gives " << result << ", not " << want);
        };
        switch(target) {
        case 0: one(bind(Ways<M>(), 5), static_cast<int>(way) + 1, 6); break;
        case 1:
            // the bound argument, or that of the call, is copied or moved to the parameter
            one(bind(ByValue(), x), Front ? a * 10 + b : b * 10 + a, y);
            break;
        case 2:
            if constexpr(Front)
                one(bind(Converts(), a), a * 10 + b, b);
            else
                one(bind(Converts(), b), a * 10 + b, a);
            break;
        case 3: one(bind(Given(), z), static_cast<int>(way) + 1); break;
        default: one(bind(Given2(), z), static_cast<int>(way) + 1); break;
        }
    });
}
static void all_ways(Case& c, bool front) {
    const unsigned m = static_cast<unsigned>(c.draw(6));
    auto go = [&]<bool F>() {
        switch(m) {
        case 0: ways<F, 1>(c); break;
        case 1: ways<F, 2>(c); break;
        case 2: ways<F, 4>(c); break;
        case 3: ways<F, 8>(c); break;
        case 4: ways<F, 15>(c); break;
        default: ways<F, 9>(c); break;
        }
    };
    if(front)
        go.operator()<true>();
    else
        go.operator()<false>();
}
SUB(ways_front, 2000, 20000) { all_ways(c, true); }
SUB(ways_back, 2000, 20000) { all_ways(c, false); }

template<typename X>
static void either(const X& x, int before, int after, bool moved, const char* where) {
    CHECK(x.v == before || x.v == after || (moved && x.v == -1), where << " is " << x.v << ", neither " << before << " nor " << after);
}
template<typename X, typename P>
static void pairs_and(Case& c, auto make) {
    using xme::get;
    const int a = static_cast<int>(c.draw(5)) + 1, b = static_cast<int>(c.draw(5)) + 1;
    const int m = c.draw(2) ? a : static_cast<int>(c.draw(5)) + 1, n = c.draw(2) ? b : static_cast<int>(c.draw(5)) + 1;
    const u64 op = c.draw(17);
    const unsigned k = kinds(c, copying | comparing, moving | making);
    LOG("pairs and tuples: op " << op << ", " << a << " " << b << " " << m << " " << n << ", what " << k);
    everywhere(c, k, [&](Run& r) {
        P p = make(a, b), q = make(m, n);
        std::pair<X, X> sp(m, n);
        std::tuple<X, X> st(m, n);
        bool assigned = false, moved = false, result = false, want = false, swapped = false;
        r.go([&] {
            switch(op) {
            case 0: p = q, assigned = true; break;
            case 1: p = std::as_const(q), assigned = true; break;
            case 2: moved = true, p = std::move(q), assigned = true; break;
            case 3: p = sp, assigned = true; break;
            case 4: p = std::as_const(sp), assigned = true; break;
            case 5: p = std::move(sp), assigned = true; break;
            case 6: p = st, assigned = true; break;
            case 7: p = std::pair<int, int>(m, n), assigned = true; break;
            case 8: p = std::as_const(st), assigned = true; break;
            case 9: want = a == m && b == n, result = p == q; break;
            case 10: want = a < m || (a == m && b < n), result = p < q; break;
            case 11: want = a > m || (a == m && b > n), result = (p <=> q) > 0; break;
            case 12: want = a != m || b != n, result = p != q; break;
            case 13: { P x(q); result = want = true; break; }
            case 14: { P x(std::as_const(q)); result = want = true; break; }
            case 15: moved = true, swapped = true, p.swap(q); break;
            default: moved = true, swapped = true; { using std::swap; swap(p, q); }
            }
        });
        if(!r.threw)
            CHECK(result == want, "the comparison is " << result);
        if(assigned) {
            CHECK(get<0>(p).v == m && get<1>(p).v == n, "assigned " << get<0>(p).v << " and " << get<1>(p).v);
        }
        else if(swapped) {
            if(!r.threw)
                CHECK(get<0>(p).v == m && get<1>(p).v == n && get<0>(q).v == a && get<1>(q).v == b, "not swapped");
        }
        else if(op <= 8) {
            either(get<0>(p), a, m, true, "the first value, when the assignment failed,");
            either(get<1>(p), b, n, true, "the second value, when the assignment failed,");
        }
        else
            CHECK(get<0>(p).v == a && get<1>(p).v == b, "the left operand was changed");
        if(!moved)
            CHECK(get<0>(q).v == m && get<1>(q).v == n, "the right operand was changed");
        if(op != 5)
            CHECK(sp.first.v == m && sp.second.v == n, "the source was changed");
        CHECK(std::get<0>(st).v == m && std::get<1>(st).v == n, "the source was changed");
    });
}
template<typename X>
static void pairs_of(Case& c) {
    pairs_and<X, xme::Pair<X, X>>(c, [](int a, int b) { return xme::Pair<X, X>{X(a), X(b)}; });
}
SUB_T(pairs, pairs_of<El<false>>, 5000, 50000);
SUB_T(pairs_quiet, pairs_of<El<true>>, 5000, 50000);
template<typename X>
static void tuples_of(Case& c) {
    pairs_and<X, xme::Tuple<X, X>>(c, [](int a, int b) { return xme::Tuple<X, X>{X(a), X(b)}; });
}
SUB_T(tuples, tuples_of<El<false>>, 5000, 50000);
SUB_T(tuples_quiet, tuples_of<El<true>>, 5000, 50000);
template<typename X>
static void making_tuples_of(Case& c) {
    using xme::get;
    const int a = static_cast<int>(c.draw(5)) + 1, b = static_cast<int>(c.draw(5)) + 1;
    const u64 op = c.draw(9);
    const unsigned k = kinds(c, copying | calling, moving | making);
    LOG("making tuples: op " << op << ", what " << k);
    everywhere(c, k, [&](Run& r) {
        X x(a), y(b);
        xme::Tuple<X, int, X> t{X(a), 5, X(b)};
        int result = a * 10 + b;
        r.go([&] {
            switch(op) {
            case 0: { auto n = xme::make_tuple(x, y); result = get<0>(n).v * 10 + get<1>(n).v; break; }
            case 1: { auto n = xme::make_pair(x, std::as_const(y)); result = n.first.v * 10 + n.second.v; break; }
            case 2: { auto n = xme::make_tuple(std::move(x), 3, y); result = get<0>(n).v * 10 + get<2>(n).v; break; }
            case 3: { auto n = xme::tuple_cat(t, std::as_const(t)); result = get<0>(n).v * 10 + get<5>(n).v; break; }
            case 4: { auto n = xme::tuple_cat(std::move(t), xme::Tuple<X>{X(a)}); result = get<0>(n).v * 10 + get<2>(n).v; break; }
            case 5: result = xme::apply([](X p, int, const X& q) { event(calling); return p.v * 10 + q.v; }, t); break;
            case 6: result = xme::apply([](const X& p, int, X q) { event(calling); return p.v * 10 + q.v; }, std::move(t)); break;
            case 7: { std::tuple<X, int, X> s(std::as_const(t)); result = std::get<0>(s).v * 10 + std::get<2>(s).v; break; }
            default: { auto n = xme::make_pair(X(a), std::move(y)); result = n.first.v * 10 + n.second.v; break; }
            }
        });
        if(!r.threw)
            CHECK(result == a * 10 + b, "the result is " << result);
        if(op < 2)
            CHECK(x.v == a && y.v == b, "a source was changed");
        if(op == 3 || op == 5 || op == 7)
            CHECK(get<0>(t).v == a && get<2>(t).v == b, "a source was changed");
    });
}
SUB_T(making_tuples, making_tuples_of<El<false>>, 3000, 30000);
SUB_T(making_tuples_quiet, making_tuples_of<El<true>>, 3000, 30000);

template<typename X>
static void aligned_of(Case& c) {
    const int a = static_cast<int>(c.draw(9)) + 1;
    const u64 op = c.draw(4);
    const unsigned k = kinds(c, copying | moving | making, 0);
    LOG("aligned: op " << op);
    everywhere(c, k, [&](Run& r) {
        X x(a);
        r.go([&] {
            auto look = [&](auto&&... args) {
                xme::AlignedData<X> d(std::forward<decltype(args)>(args)...);
                CHECK(d.data()->v == a, "the object isn't there");
                std::destroy_at(d.data());
            };
            switch(op) {
            case 0: look(x); break;
            case 1: look(std::move(x)); break;
            case 2: look(a); break;
            default: look(std::as_const(x)); break;
            }
        });
        if(op != 1)
            CHECK(x.v == a, "the source was changed");
    });
}
SUB_T(aligned, aligned_of<El<false>>, 1500, 15000);
SUB_T(aligned_quiet, aligned_of<El<true>>, 1500, 15000);

template<typename X>
static void scopes_of(Case& c) {
    const u64 op = c.draw(4);
    const int depth = static_cast<int>(c.draw(3));
    const unsigned k = kinds(c, copying | moving, 0);
    LOG("scopes: op " << op << ", " << depth << " around");
    struct G {
        X x;
        std::vector<int>* calls;
        void operator()() { calls->push_back(x.v); }
    };
    everywhere(c, k, [&](Run& r) {
        std::vector<int> calls;
        calls.reserve(20);
        G g{X(7), &calls};
        bool entered = false;
        const int around = depth;
        r.go([&] {
            auto inner = [&] {
                switch(op) {
                case 0: { xme::ScopedDelegate<G> s(g); entered = true; break; }
                case 1: { xme::ScopedDelegate<G> s(std::move(g)); entered = true; break; }
                case 2: { xme::ScopedDelegate s(G{X(7), &calls}); entered = true; break; }
                default: { xme::ScopedDelegate s([&calls, x = g.x] { calls.push_back(x.v); }); entered = true; break; }
                }
            };
            xme::ScopedDelegate one([&] { calls.push_back(100); });
            if(around > 0) {
                xme::ScopedDelegate two([&] { calls.push_back(200); });
                inner();
            }
            else
                inner();
        });
        std::vector<int> want;
        if(entered)
            want.push_back(7);
        if(around > 0)
            want.push_back(200);
        want.push_back(100);
        CHECK(calls == want, calls.size() << " functions were called, not " << want.size() << ", or others");
        CHECK(entered == !r.threw, "entered");
    });
}
SUB_T(scopes, scopes_of<El<false>>, 1500, 15000);
SUB_T(scopes_quiet, scopes_of<El<true>>, 1500, 15000);

template<typename S>
static void algorithms(Case& c) {
    using X = typename S::value_type;
    const std::size_t n = c.draw(14);
    std::vector<int> v(n);
    for(int& x : v)
        x = static_cast<int>(c.draw(6));
    const int needle = static_cast<int>(c.draw(6));
    const u64 op = c.draw(4);
    const unsigned k = op < 2 ? comparing | copying : static_cast<unsigned>(moving);
    LOG("algorithms: op " << op << ", " << n << " elements");
    everywhere(c, k, [&](Run& r) {
        S s;
        for(int x : v)
            s.emplace_back(x);
        const X x(needle);
        std::size_t at = n;
        r.go([&] {
            auto index = [&](auto it) { at = static_cast<std::size_t>(std::distance(s.begin(), it)); };
            switch(op) {
            case 0: index(xme::find(s, x)); break;
            case 1: index(xme::find(s.begin(), s.end(), x)); break;
            case 2: index(xme::reverse(s)); break;
            default: index(xme::reverse(s.begin(), s.end())); break;
            }
        });
        CHECK(s.size() == n, "elements were lost");
        if(op < 2) {
            std::size_t i = 0;
            for(const X& y : s)
                CHECK(y.v == v[i++], "an element was changed");
            if(!r.threw)
                CHECK(at == static_cast<std::size_t>(std::find(v.begin(), v.end(), needle) - v.begin()), "found at " << at);
        }
        else if(!r.threw) {
            std::size_t i = n;
            for(const X& y : s)
                CHECK(y.v == v[--i], "not reversed");
            CHECK(at == n, "the end");
        }
    });
}
SUB_T(algorithms_vector, algorithms<std::vector<El<false>>>, 2000, 20000);
SUB_T(algorithms_list, algorithms<std::list<El<true>>>, 2000, 20000);

template<typename X>
static void heaps_of(Case& c) {
    const std::size_t n = c.draw(12);
    std::vector<int> v(n);
    for(int& x : v)
        x = static_cast<int>(c.draw(20));
    const int added = static_cast<int>(c.draw(20));
    const u64 op = n ? c.draw(4) : c.draw(3);
    const bool moves = c.draw(3) == 0;
    const unsigned k = comparing | copying | making | (moves ? moving : 0u);
    LOG("heaps: op " << op << ", " << n << " elements" << (moves ? ", moves may fail" : ""));
    everywhere(c, k, [&](Run& r) {
        xme::Heap<X> h;
        for(int x : v)
            h.emplace(x);
        X x(added);
        r.go([&] {
            switch(op) {
            case 0: h.push(x); break;
            case 1: h.push(std::move(x)); break;
            case 2: h.emplace(added); break;
            default: h.pop(); break;
            }
        });
        std::multiset<int> before(v.begin(), v.end()), after(before), now;
        if(op < 3)
            after.insert(added);
        else
            after.erase(std::prev(after.end()));
        for(const X& y : h)
            now.insert(y.v);
        if(!r.threw)
            CHECK(now == after, "the elements aren't those");
        else if(!moves)
            CHECK(now == before || now == after, "when the operation failed, the elements were neither those of before nor those of after");
        CHECK(static_cast<std::size_t>(living) == now.size() + 1, living << " objects are alive, with " << now.size() << " in the heap");
        if(op != 1)
            CHECK(x.v == added, "the source was changed");
    });
}
SUB_T(heaps, heaps_of<El<false>>, 3000, 30000);
SUB_T(heaps_quiet, heaps_of<El<true>>, 3000, 30000);

// Pairs and Tuples where only one of the elements can throw -------------------------------------------------------------

struct Armed {
    static inline bool armed = false;
    int v                    = 0;
    Armed(int x) : v(x) {}
    Armed(const Armed& o) : v(o.v) { fire(); }
    Armed(Armed&& o) : v(o.v) { fire(); }
    Armed& operator=(const Armed& o) { return fire(), v = o.v, *this; }
    Armed& operator=(Armed&& o) { return fire(), v = o.v, *this; }
    friend void swap(Armed& a, Armed& b) {
        fire();
        std::swap(a.v, b.v);
    }
    friend bool operator==(const Armed& a, const Armed& b) { return fire(), a.v == b.v; }
    friend auto operator<=>(const Armed& a, const Armed& b) { return fire(), a.v <=> b.v; }
    int operator()(int x) const { return fire(), x + v; }
    static void fire() {
        if(armed)
            throw 42;
    }
};
template<typename P>
static void one_throws_in(Case& c, auto make) {
    P a = make(1), b = make(2);
    const u64 op = c.draw(10);
    LOG("operation " << op << " of " << __PRETTY_FUNCTION__);
    bool threw   = false;
    Armed::armed = true;
    try {
        switch(op) {
        case 0: a.swap(b); break;
        case 1: {
            using std::swap;
            swap(a, b);
            break;
        }
        case 2: std::ranges::swap(a, b); break;
        case 3: a = b; break;
        case 4: a = std::move(b); break;
        case 5: { P x(a); break; }
        case 6: { P x(std::move(a)); break; }
        case 7: (void)(a == make(1)); break;
        case 8: (void)(a < b); break;
        default: a = std::as_const(b);
        }
    }
    catch(int) {
        threw = true;
    }
    Armed::armed = false;
    CHECK(threw, "the exception didn't arrive");
    c.nontrivial();
}
SUB(one_throws, 400, 2000) {
    using std::string;
    switch(c.draw(7)) {
    case 0: return one_throws_in<xme::Pair<Armed, int>>(c, [](int n) { return xme::Pair<Armed, int>{n, 3}; });
    case 1: return one_throws_in<xme::Pair<int, Armed>>(c, [](int n) { return xme::Pair<int, Armed>{3, n}; });
    case 2: return one_throws_in<xme::Tuple<Armed, int>>(c, [](int n) { return xme::Tuple<Armed, int>{n, 3}; });
    case 3: return one_throws_in<xme::Tuple<int, Armed>>(c, [](int n) { return xme::Tuple<int, Armed>{3, n}; });
    case 4: return one_throws_in<xme::Tuple<int, Armed, string>>(c, [](int n) { return xme::Tuple<int, Armed, string>{3, n, "x"}; });
    case 5: return one_throws_in<xme::Tuple<int, xme::Pair<int, Armed>>>(c, [](int n) { return xme::Tuple<int, xme::Pair<int, Armed>>{3, {4, n}}; });
    default: return one_throws_in<xme::Pair<xme::Tuple<int, Armed>, string>>(c, [](int n) { return xme::Pair<xme::Tuple<int, Armed>, string>{{3, n}, "s"}; });
    }
}
//! apply, make_tuple, bind: what is declared noexcept doesn't throw
SUB(apply_throws, 200, 1000) {
    const u64 op = c.draw(13);
    LOG("operation " << op);
    bool threw = false;
    xme::Tuple<Armed, int> t{1, 2};
    const auto sum = [](int, auto&&...) { return 0; };
    const xme::Tuple<int> one{5};
    Armed f(3);
    Armed::armed = true;
    try {
        switch(op) {
        case 0: xme::apply(f, one); break;
        case 1: (void)xme::make_tuple(f); break;
        case 2: (void)xme::make_tuple(1, std::move(f)); break;
        case 3: xme::apply([](int) -> int { throw 1; }, one); break;
        // Each bound thing in turn is the one that throws
        case 4: (void)xme::bind_front(f, 1); break;
        case 5: (void)xme::bind_front(sum, f, 1); break;
        case 6: (void)xme::bind_front(sum, 1, f); break;
        case 7: (void)xme::bind_front(sum, 1, std::move(f), 2L); break;
        case 8: (void)xme::bind_back(f, 1); break;
        case 9: (void)xme::bind_back(sum, f, 1); break;
        case 10: (void)xme::bind_back(sum, 1, f); break;
        case 11: (void)xme::bind_back(sum, 1, std::move(f), 2L); break;
        default: xme::apply([](auto, int) {}, t);
        }
    }
    catch(int) {
        threw = true;
    }
    Armed::armed = false;
    CHECK(threw, "the exception didn't arrive");
    c.nontrivial();
}

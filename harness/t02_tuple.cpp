// T02: Tuple against std::tuple and the objects given
#include "values.hpp"
#include <array>
#include <tuple>
#include <utility>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>

using el::world;
template<std::size_t I>
using idx = std::integral_constant<std::size_t, I>;

template<typename T>
constexpr bool tracked = false;
template<el::Kind K, std::size_t P, std::size_t A>
constexpr bool tracked<el::Tracked<K, P, A>> = true;

template<typename... T>
static std::tuple<T...> draw(Case& c) {
    // braces: from the first to the last
    return std::tuple<T...>{Val<T>::make(c)...};
}
template<typename... T, std::size_t... I>
static std::tuple<T...> clone_all(const std::tuple<T...>& m, std::index_sequence<I...>) {
    return std::tuple<T...>{clone(std::get<I>(m))...};
}
template<typename... T>
static std::tuple<T...> clone_all(const std::tuple<T...>& m) {
    return clone_all(m, std::index_sequence_for<T...>{});
}
template<typename... T, std::size_t... I>
static std::string show_all(const std::tuple<T...>& m, std::index_sequence<I...>) {
    std::string s = "(";
    ((s += (I ? ", " : "") + show(std::get<I>(m))), ...);
    return s + ")";
}
template<typename... T>
static std::string show_all(const std::tuple<T...>& m) {
    return show_all(m, std::index_sequence_for<T...>{});
}

//! A Tuple with the values of the model
template<typename... T, std::size_t... I>
static xme::Tuple<T...> to_xme(const std::tuple<T...>& m, std::index_sequence<I...>) {
    return xme::Tuple<T...>{clone(std::get<I>(m))...};
}
template<typename... T>
static xme::Tuple<T...> to_xme(const std::tuple<T...>& m) {
    return to_xme(m, std::index_sequence_for<T...>{});
}

template<typename Tup, typename... T, std::size_t... I>
static void holds(const Tup& t, const std::tuple<T...>& m, const char* what, std::index_sequence<I...>) {
    using std::get;
    using xme::get;
    (
      [&] {
          const auto& v = get<I>(t);
          CHECK(same<T>(v, std::get<I>(m)), what << ": element " << I << " is " << show<T>(v) << ", not " << show(std::get<I>(m)));
      }(),
      ...);
}
template<typename Tup, typename... T>
static void holds(const Tup& t, const std::tuple<T...>& m, const char* what) {
    static_assert(std::tuple_size_v<Tup> == sizeof...(T));
    holds(t, m, what, std::index_sequence_for<T...>{});
}

template<typename T>
static const void* at(T&& x) {
    return std::addressof(x);
}

template<typename... T, std::size_t... I>
static void access(xme::Tuple<T...>& t, std::index_sequence<I...>) {
    using Tup     = xme::Tuple<T...>;
    const Tup& ct = t;
    using xme::get;
    static_assert((std::is_same_v<decltype(get<I>(t)), T&> && ...));
    static_assert((std::is_same_v<decltype(get<I>(ct)), const T&> && ...));
    static_assert((std::is_same_v<decltype(get<I>(std::move(t))), T&&> && ...));
    static_assert((std::is_same_v<decltype(t[idx<I>{}]), T&> && ...));
    static_assert((std::is_same_v<decltype(ct[idx<I>{}]), const T&> && ...));
    static_assert((std::is_same_v<decltype(std::move(t)[idx<I>{}]), T&&> && ...));
    static_assert((std::is_same_v<decltype(get<I>(std::move(ct))), const T&&> && ...));
    static_assert((std::is_same_v<decltype(std::move(ct)[idx<I>{}]), const T&&> && ...));
    static_assert((std::is_same_v<std::tuple_element_t<I, Tup>, T> && ...));
    static_assert(Tup::size == sizeof...(T) && std::tuple_size_v<Tup> == sizeof...(T));
    const char* begin = reinterpret_cast<const char*>(&t);
    const char* end   = begin + sizeof t;
    const void* where[sizeof...(T) + 1] = {at(get<I>(t))...};
    const std::size_t sizes[sizeof...(T) + 1] = {(std::is_empty_v<T> ? 0 : sizeof(T))...};
    (
      [&] {
          const void* p = where[I];
          CHECK(p >= begin && static_cast<const char*>(p) + sizeof(T) <= end, "element " << I << " isn't in the Tuple");
          CHECK(at(get<I>(ct)) == p && at(static_cast<const T&>(get<I>(std::move(t)))) == p, "get<" << I << "> of const or rvalue Tuple is another object");
          CHECK(at(t[idx<I>{}]) == p && at(ct[idx<I>{}]) == p && at(static_cast<const T&>(std::move(t)[idx<I>{}])) == p, "indexing with " << I << " gives another object");
      }(),
      ...);
    for(std::size_t i = 0; i < sizeof...(T); ++i)
        for(std::size_t j = 0; j < sizeof...(T); ++j)
            if(i != j && sizes[i] && sizes[j]) {
                const char *a = static_cast<const char*>(where[i]), *b = static_cast<const char*>(where[j]);
                CHECK(a + sizes[i] <= b || b + sizes[j] <= a, "elements " << i << " and " << j << " overlap");
            }
    auto bindings = [&](auto&... x) {
        const void* b[sizeof...(T) + 1] = {at(x)...};
        for(std::size_t i = 0; i < sizeof...(T); ++i)
            CHECK(b[i] == where[i], "structured binding " << i << " is another object");
    };
    if constexpr(sizeof...(T) == 1) {
        auto& [a] = t;
        bindings(a);
    }
    else if constexpr(sizeof...(T) == 2) {
        auto& [a, b] = t;
        bindings(a, b);
        const auto& [d, e] = ct;
        bindings(d, e);
    }
    else if constexpr(sizeof...(T) == 3) {
        auto& [a, b, d] = t;
        bindings(a, b, d);
        const auto& [e, f, g] = ct;
        bindings(e, f, g);
    }
    else if constexpr(sizeof...(T) == 4) {
        auto& [a, b, d, e] = t;
        bindings(a, b, d, e);
    }
    else if constexpr(sizeof...(T) == 5) {
        auto& [a, b, d, e, f] = t;
        bindings(a, b, d, e, f);
    }
    else if constexpr(sizeof...(T) == 8) {
        auto& [a, b, d, e, f, g, h, i] = t;
        bindings(a, b, d, e, f, g, h, i);
    }
}

template<typename... T, std::size_t... I>
static void compare(const std::tuple<T...>& m, const std::tuple<T...>& n, std::index_sequence<I...>) {
    const auto t = to_xme(m), u = to_xme(n);
    int o = 0;
    ((o == 0 ? void(o = as_int(std::compare_three_way{}(std::get<I>(m), std::get<I>(n)))) : void()), ...);
    const bool eq = ((std::get<I>(m) == std::get<I>(n)) && ...);
    CHECK((t == u) == eq && (t != u) == !eq, "== or != is wrong");
    CHECK(as_int(t <=> u) == o, "<=> gives " << as_int(t <=> u) << " instead of " << o);
    CHECK((t < u) == (o == -1) && (t > u) == (o == 1) && (t <= u) == (o == -1 || o == 0) && (t >= u) == (o == 1 || o == 0),
          "the relational operators don't agree with the lexicographic order");
}

enum Category { lvalue, const_lvalue, rvalue, const_rvalue };
template<typename A>
static Category category() {
    if constexpr(std::is_lvalue_reference_v<A>)
        return std::is_const_v<std::remove_reference_t<A>> ? const_lvalue : lvalue;
    else
        return std::is_const_v<std::remove_reference_t<A>> ? const_rvalue : rvalue;
}

//! Records what it is called with
struct Recorder {
    std::vector<const void*>* where;
    std::vector<Category>* cat;
    int* calls;
    template<typename... A>
    int& operator()(A&&... a) const {
        *where = {at(a)...};
        *cat   = {category<A>()...};
        return ++*calls;
    }
};

template<typename Tup, typename... W>
static void applied(Tup&& t, Category want, const W*... where) {
    std::vector<const void*> w;
    std::vector<Category> cat;
    int calls = 0;
    Recorder r{&w, &cat, &calls};
    static_assert(std::is_same_v<decltype(xme::apply(r, std::forward<Tup>(t))), int&>);
    int& res = xme::apply(r, std::forward<Tup>(t));
    CHECK(&res == &calls && calls == 1, "apply called the function " << calls << " times, or lost its result");
    const std::vector<const void*> expect{static_cast<const void*>(where)...};
    CHECK(w == expect, "apply doesn't pass the elements in order");
    for(Category k : cat)
        CHECK(k == want, "apply passes an element in category " << k << " instead of " << want);
}

template<typename... T, std::size_t... I>
static void apply_all(const std::tuple<T...>& m, std::index_sequence<I...>) {
    using std::get;
    using xme::get;
    auto t = to_xme(m);
    applied(t, lvalue, std::addressof(get<I>(t))...);
    applied(std::as_const(t), const_lvalue, std::addressof(get<I>(t))...);
    applied(std::move(t), rvalue, std::addressof(get<I>(t))...);
    applied(std::move(std::as_const(t)), const_rvalue, std::addressof(get<I>(t))...);
    auto s = clone_all(m);
    applied(s, lvalue, std::addressof(get<I>(s))...);
    applied(std::move(s), rvalue, std::addressof(get<I>(s))...);
    if constexpr(sizeof...(T) == 2) {
        xme::Pair<T...> p{clone(std::get<I>(m))...};
        applied(p, lvalue, std::addressof(get<I>(p))...);
        applied(std::as_const(p), const_lvalue, std::addressof(get<I>(p))...);
        applied(std::move(p), rvalue, std::addressof(get<I>(p))...);
    }
    // the values arrive
    const bool ok = xme::apply([&](const T&... x) { return (same(x, std::get<I>(m)) && ...); }, t);
    CHECK(ok, "apply passes other values");
}

template<typename... T>
struct Aggregate;
template<typename A>
struct Aggregate<A> {
    A a;
    auto tie() const { return std::tie(a); }
};
template<typename A, typename B>
struct Aggregate<A, B> {
    A a;
    B b;
    auto tie() const { return std::tie(a, b); }
};
template<typename A, typename B, typename C>
struct Aggregate<A, B, C> {
    A a;
    B b;
    C c;
    auto tie() const { return std::tie(a, b, c); }
};

template<typename... T, std::size_t... I>
static void body(Case& c, std::index_sequence<I...> seq) {
    using M = std::tuple<T...>;
    using X = xme::Tuple<T...>;
    constexpr u64 n_tracked = (u64(tracked<T>) + ... + 0);
    constexpr bool copyable = (std::is_copy_constructible_v<T> && ...);
    const M m = draw<T...>(c);
    M n       = draw<T...>(c);
    // often equal up to some point
    if constexpr(sizeof...(T) > 0) {
        const u64 equal = c.draw(sizeof...(T) + 1);
        ((I < equal ? void(std::get<I>(n) = clone(std::get<I>(m))) : void()), ...);
    }
    LOG(show_all(m) << " and " << show_all(n));
    static_assert(std::is_aggregate_v<X>);
    X t = to_xme(m);
    holds(t, m, "aggregate initialization");
    access(t, seq);
    compare(m, n, seq);
    compare(n, m, seq);
    compare(m, m, seq);
    apply_all(m, seq);
    // writing one element changes no other
    {
        using xme::get;
        M k = clone_all(m);
        X u = to_xme(m);
        (
          [&] {
              std::get<I>(k) = clone(std::get<I>(n));
              if(c.draw(2))
                  get<I>(u) = clone(std::get<I>(n));
              else
                  u[idx<I>{}] = clone(std::get<I>(n));
              holds(u, k, "writing an element");
          }(),
          ...);
    }
    // deduction and make_tuple
    if constexpr(sizeof...(T) > 1) {
        xme::Tuple d{clone(std::get<I>(m))...};
        static_assert(std::is_same_v<decltype(d), X>);
        holds(d, m, "deduction");
    }
    {
        auto mk = xme::make_tuple(clone(std::get<I>(m))...);
        static_assert(std::is_same_v<decltype(mk), X>);
        holds(mk, m, "make_tuple");
        if constexpr(copyable) {
            auto src = clone_all(m);
            auto ml  = xme::make_tuple(std::get<I>(src)...);
            static_assert(std::is_same_v<decltype(ml), X>);
            holds(ml, m, "make_tuple of lvalues");
            holds(src, m, "make_tuple of lvalues (arguments)");
            auto mr = xme::make_tuple(std::ref(std::get<I>(src))...);
            static_assert(std::is_same_v<decltype(mr), xme::Tuple<T&...>>);
            using xme::get;
            CHECK(((std::addressof(get<I>(mr)) == std::addressof(std::get<I>(src))) && ...), "make_tuple doesn't unwrap references");
        }
    }
    // swap
    {
        struct {
            u64 before = 0x1122334455667788;
            X u;
            u64 after = 0x99aabbccddeeff00;
        } s{.u = to_xme(n)};
        X& u = s.u;
        switch(c.draw(4)) {
        case 0: t.swap(u); break;
        case 1: xme::swap(t, u); break;
        case 2: swap(t, u); break;
        default: std::ranges::swap(t, u);
        }
        holds(t, n, "swap");
        holds(u, m, "swap (other)");
        u.swap(u);
        holds(u, m, "swap with itself");
        CHECK(s.before == 0x1122334455667788 && s.after == 0x99aabbccddeeff00, "swap wrote outside the Tuple");
        // copies and moves
        world.copies = world.moves = world.made = world.assigns = 0;
        X v = std::move(u);
        CHECK(world.moves == n_tracked && world.copies == 0 && world.made == 0, "moving a Tuple made " << world.moves << " moves and " << world.copies << " copies");
        holds(v, m, "move construction");
        u = std::move(v);
        CHECK(world.copies == 0 && world.made == 0, "move assigning a Tuple copied elements");
        holds(u, m, "move assignment");
        if constexpr(copyable) {
            world.copies = world.moves = world.made = world.assigns = 0;
            X w = std::as_const(u);
            CHECK(world.moves == 0 && world.copies == n_tracked && world.made == 0, "copying a Tuple made " << world.moves << " moves and " << world.copies << " copies");
            holds(w, m, "copy construction");
            w = std::as_const(t);
            holds(w, n, "copy assignment");
            holds(t, n, "copy assignment (source)");
            X& self = w;
            w = self;
            holds(w, n, "self assignment");
        }
    }
    // assignment from other tuple-likes
    auto assign = [&](auto source, const char* what) {
        X u = to_xme(n);
        X* r;
        if constexpr(copyable) {
            r = &(u = std::as_const(source));
            CHECK(r == &u, "assignment doesn't return the Tuple");
            holds(u, m, what);
            holds(source, m, "assignment (source)");
            u = to_xme(n);
            u = source;
            holds(u, m, what);
            holds(source, m, "assignment (source)");
            u = to_xme(n);
        }
        const u64 copies = world.copies;
        r = &(u = std::move(source));
        CHECK(r == &u && world.copies == copies, "assignment from an rvalue copies");
        holds(u, m, what);
    };
    assign(clone_all(m), "assignment from std::tuple");
    assign(to_xme(m), "assignment from Tuple");
    if constexpr(sizeof...(T) == 2) {
        assign(xme::Pair<T...>{clone(std::get<I>(m))...}, "assignment from Pair");
        assign(std::pair<T...>{clone(std::get<I>(m))...}, "assignment from std::pair");
    }
    // conversion
    if constexpr(copyable && sizeof...(T) > 0) {
        const X u = to_xme(m);
        const M s = static_cast<M>(u);
        holds(s, m, "conversion to std::tuple");
        const xme::Tuple<const T&...> refs = u;
        using xme::get;
        CHECK(((std::addressof(get<I>(refs)) == std::addressof(get<I>(u))) && ...), "converting to a Tuple of references doesn't bind the elements");
        const xme::Tuple<const T...> consts = u;
        holds(consts, m, "conversion to a Tuple of const elements");
        if constexpr(sizeof...(T) <= 3) {
            const Aggregate<T...> a = u;
            holds(std::apply([](const auto&... x) { return std::tuple<T...>(x...); }, a.tie()), m, "conversion to an aggregate");
        }
        if constexpr(sizeof...(T) == 2) {
            const xme::Pair<T...> p = u;
            holds(p, m, "conversion to Pair");
            const std::pair<T...> sp = u;
            holds(sp, m, "conversion to std::pair");
        }
        holds(u, m, "conversion (source)");
    }
    // tie and forward_as_tuple
    if constexpr(sizeof...(T) > 0) {
        auto src = clone_all(m);
        auto tied = xme::tie(std::get<I>(src)...);
        static_assert(std::is_same_v<decltype(tied), xme::Tuple<T&...>>);
        using xme::get;
        CHECK(((std::addressof(get<I>(tied)) == std::addressof(std::get<I>(src))) && ...), "tie binds other objects");
        static_assert((std::is_same_v<decltype(get<I>(tied)), T&> && ...));
        static_assert((std::is_same_v<decltype(get<I>(std::move(tied))), T&> && ...));
        auto fwd = xme::forward_as_tuple(std::get<I>(src)...);
        static_assert(std::is_same_v<decltype(fwd), xme::Tuple<T&...>>);
        CHECK(((std::addressof(get<I>(fwd)) == std::addressof(std::get<I>(src))) && ...), "forward_as_tuple binds other objects");
        if constexpr(copyable) {
            auto fwc = xme::forward_as_tuple(std::as_const(std::get<I>(src))...);
            static_assert(std::is_same_v<decltype(fwc), xme::Tuple<const T&...>>);
            CHECK(((std::addressof(get<I>(fwc)) == std::addressof(std::get<I>(src))) && ...), "forward_as_tuple binds other const objects");
        }
        // assigning to tied objects
        if(c.draw(2))
            xme::tie(std::get<I>(src)...) = to_xme(n);
        else
            xme::tie(std::get<I>(src)...) = clone_all(n);
        holds(src, n, "assignment to tied objects");
        // exchanging Tuples of references exchanges the objects
        auto src2 = clone_all(m);
        auto tied2 = xme::tie(std::get<I>(src2)...);
        tied.swap(tied2);
        holds(src, m, "swap of tied objects");
        holds(src2, n, "swap of tied objects (other)");
        CHECK(((std::addressof(get<I>(tied)) == std::addressof(std::get<I>(src))) && ...), "swap rebinds references");
    }
    world.check();
}

template<typename... T>
static void tuple_of(Case& c) {
    world.reset();
    body<T...>(c, std::index_sequence_for<T...>{});
    world.check_empty();
    if(sizeof...(T) > 1)
        c.nontrivial();
}

// tuple_cat ---------------------------------------------------------------------------------------------------------

//! Category of one argument of tuple_cat
template<int K, typename T>
static decltype(auto) as_category(T& t) {
    if constexpr(K == 0)
        return std::move(t);
    else if constexpr(K == 1)
        return static_cast<T&>(t);
    else
        return std::as_const(t);
}

template<typename... T, typename... U, std::size_t... I, std::size_t... J>
static std::tuple<T..., U...> join(const std::tuple<T...>& a, const std::tuple<U...>& b, std::index_sequence<I...>, std::index_sequence<J...>) {
    return std::tuple<T..., U...>{clone(std::get<I>(a))..., clone(std::get<J>(b))...};
}
template<typename... T, typename... U>
static std::tuple<T..., U...> join(const std::tuple<T...>& a, const std::tuple<U...>& b) {
    return join(a, b, std::index_sequence_for<T...>{}, std::index_sequence_for<U...>{});
}
template<typename T>
struct ToXme;
template<typename... T>
struct ToXme<std::tuple<T...>> {
    using type = xme::Tuple<T...>;
    static constexpr u64 n_tracked = (u64(tracked<T>) + ... + 0);
};

template<int K, typename... T, std::size_t... I>
static void after_cat([[maybe_unused]] const std::tuple<T...>& m, const auto& t, std::index_sequence<I...>) {
    using std::get;
    using xme::get;
    if(K != 0)
        holds(t, m, "tuple_cat (an argument that isn't an rvalue)");
    else
        // moved from
        (
          [&] {
              if constexpr(tracked<T>)
                  CHECK(show<T>(get<I>(t)) == std::to_string(Tr::moved_from), "tuple_cat did not move from an rvalue");
          }(),
          ...);
}

template<int K1, int K2, int K3, typename M1, typename M2, typename M3, typename X1, typename X2, typename X3>
static void cat3(const M1& m1, const M2& m2, const M3& m3, X1 x1, X2 x2, X3 x3) {
    const auto whole = join(join(m1, m2), m3);
    world.copies = world.moves = world.made = 0;
    auto r = xme::tuple_cat(as_category<K1>(x1), as_category<K2>(x2), as_category<K3>(x3));
    using W = typename ToXme<std::remove_const_t<decltype(whole)>>::type;
    static_assert(std::is_same_v<decltype(r), W>);
    const u64 copies = (K1 ? ToXme<M1>::n_tracked : 0) + (K2 ? ToXme<M2>::n_tracked : 0) + (K3 ? ToXme<M3>::n_tracked : 0);
    CHECK(world.copies == copies, "tuple_cat copied " << world.copies << " elements, the lvalues have " << copies);
    holds(r, whole, "tuple_cat");
    after_cat<K1>(m1, x1, std::make_index_sequence<std::tuple_size_v<M1>>{});
    after_cat<K2>(m2, x2, std::make_index_sequence<std::tuple_size_v<M2>>{});
    after_cat<K3>(m3, x3, std::make_index_sequence<std::tuple_size_v<M3>>{});
}

template<typename M1, typename M2, typename M3, int K1, int K2, int K3>
static void cat_case(Case& c) {
    world.reset();
    {
        auto mk = [&]<typename... T>(std::type_identity<std::tuple<T...>>) { return draw<T...>(c); };
        const M1 m1 = mk(std::type_identity<M1>{});
        const M2 m2 = mk(std::type_identity<M2>{});
        const M3 m3 = mk(std::type_identity<M3>{});
        LOG(show_all(m1) << " + " << show_all(m2) << " + " << show_all(m3) << " as " << K1 << K2 << K3);
        if(c.draw(2))
            cat3<K1, K2, K3>(m1, m2, m3, to_xme(m1), to_xme(m2), to_xme(m3));
        else
            cat3<K1, K2, K3>(m1, m2, m3, clone_all(m1), to_xme(m2), clone_all(m3));
    }
    world.check_empty();
    c.nontrivial();
}

SUB(cat_shapes, 6000, 80000) {
    using E = std::tuple<>;
    using T1 = std::tuple<Tr>;
    using T2 = std::tuple<int, std::string>;
    using T3 = std::tuple<Tr, int, Tr>;
    using T4 = std::tuple<Mo, Tr>;
    using T5 = std::tuple<EmptyA, std::string, EmptyA, double>;
    switch(c.draw(16)) {
    case 0: return cat_case<T1, T2, T3, 0, 0, 0>(c);
    case 1: return cat_case<T1, T2, T3, 1, 0, 2>(c);
    case 2: return cat_case<T1, T2, T3, 2, 1, 0>(c);
    case 3: return cat_case<E, T3, T1, 0, 1, 0>(c);
    case 4: return cat_case<T3, E, T3, 0, 0, 2>(c);
    case 5: return cat_case<T4, T1, T4, 0, 1, 0>(c);
    case 6: return cat_case<T5, T4, T2, 1, 0, 2>(c);
    case 7: return cat_case<E, E, E, 0, 1, 2>(c);
    case 8: return cat_case<T3, T3, T3, 1, 2, 1>(c);
    case 9: return cat_case<T2, T2, T2, 0, 1, 0>(c);
    case 10: return cat_case<T1, T1, T1, 0, 2, 0>(c);
    case 11: return cat_case<T5, T5, E, 0, 2, 1>(c);
    case 12: return cat_case<T3, T1, T4, 1, 1, 0>(c);
    case 13: return cat_case<T2, T4, T5, 1, 0, 0>(c);
    case 14: return cat_case<E, T4, E, 2, 0, 1>(c);
    default: return cat_case<T1, T3, T2, 0, 1, 1>(c);
    }
}

//! Few and many arguments, other kinds of tuple-likes, references
SUB(cat_kinds, 4000, 50000) {
    const int i = Val<int>::make(c), j = Val<int>::make(c), k = Val<int>::make(c), l = Val<int>::make(c);
    const std::string s = Val<std::string>::make(c);
    LOG(i << ' ' << j << ' ' << k << ' ' << l << ' ' << show(s));
    using xme::get;
    {
        auto none = xme::tuple_cat();
        static_assert(std::is_same_v<decltype(none), xme::Tuple<>>);
        auto one = xme::tuple_cat(xme::Tuple<int, std::string>{i, s});
        static_assert(std::is_same_v<decltype(one), xme::Tuple<int, std::string>>);
        CHECK(get<0>(one) == i && get<1>(one) == s, "tuple_cat of one");
        auto five = xme::tuple_cat(xme::Tuple<int>{i}, xme::Tuple<int, int>{j, k}, xme::Tuple<>{}, std::tuple<int>{l}, xme::Tuple<std::string, int>{s, i});
        static_assert(std::is_same_v<decltype(five), xme::Tuple<int, int, int, int, std::string, int>>);
        CHECK(get<0>(five) == i && get<1>(five) == j && get<2>(five) == k && get<3>(five) == l && get<4>(five) == s && get<5>(five) == i, "tuple_cat of five");
        auto kinds = xme::tuple_cat(xme::Pair<int, std::string>{i, s}, std::pair<int, int>{j, k}, std::array<int, 3>{l, i, j});
        static_assert(std::is_same_v<decltype(kinds), xme::Tuple<int, std::string, int, int, int, int, int>>);
        CHECK(get<0>(kinds) == i && get<1>(kinds) == s && get<2>(kinds) == j && get<3>(kinds) == k && get<4>(kinds) == l && get<5>(kinds) == i && get<6>(kinds) == j, "tuple_cat of pairs and arrays");
    }
    {
        int a = i, b = j;
        std::string t = s;
        auto refs = xme::tuple_cat(xme::tie(a, t), xme::Tuple<int>{k}, xme::forward_as_tuple(std::as_const(b)));
        static_assert(std::is_same_v<decltype(refs), xme::Tuple<int&, std::string&, int, const int&>>);
        CHECK(&get<0>(refs) == &a && &get<1>(refs) == &t && get<2>(refs) == k && &get<3>(refs) == &b && t == s, "tuple_cat of references");
        const xme::Tuple<int&, std::string&> tied{a, t};
        auto refs2 = xme::tuple_cat(tied, tied);
        static_assert(std::is_same_v<decltype(refs2), xme::Tuple<int&, std::string&, int&, std::string&>>);
        CHECK(&get<0>(refs2) == &a && &get<1>(refs2) == &t && &get<2>(refs2) == &a && &get<3>(refs2) == &t && t == s, "tuple_cat of const Tuples of references");
        // elements that are rvalue references
        auto rv = xme::Tuple<std::string&&, int&&>{std::move(t), std::move(a)};
        static_assert(std::is_same_v<decltype(get<0>(rv)), std::string&>);
        static_assert(std::is_same_v<decltype(get<0>(std::move(rv))), std::string&&>);
        CHECK(&get<0>(rv) == &t && &get<1>(rv) == &a && t == s, "a Tuple of rvalue references binds other objects");
        auto taken = xme::Tuple<std::string, int>{get<0>(std::move(rv)), get<1>(std::move(rv))};
        CHECK(get<0>(taken) == s && get<1>(taken) == i, "taking the elements of a Tuple of rvalue references");
    }
    {
        // apply with references, arrays, and what the function returns
        int a = i;
        const std::array<int, 3> arr{i, j, k};
        const auto sum = xme::apply([](int x, int y, int z) { return std::array<long long, 3>{x, y, z}; }, arr);
        CHECK(sum[0] == i && sum[1] == j && sum[2] == k, "apply of an array");
        xme::apply([&](int& x, const std::string& y) { x = y.size(); }, xme::Tuple<int&, const std::string&>{a, s});
        CHECK(a == static_cast<int>(s.size()), "apply of a Tuple of references");
        xme::apply([&] { a = 77; }, xme::Tuple<>{});
        CHECK(a == 77, "apply of an empty Tuple");
        int count = 0;
        struct Once {
            int* n;
            void operator()(int) && { *n += 1; }
            void operator()(int) & { *n += 100; }
        };
        xme::apply(Once{&count}, xme::Tuple<int>{i});
        CHECK(count == 1, "apply doesn't forward the function");
        Once once{&count};
        xme::apply(once, std::tuple<int>{i});
        CHECK(count == 101, "apply doesn't forward the function");
    }
    {
        // assignment with conversions
        xme::Tuple<long long, double, std::string> t{};
        t = xme::Tuple<int, int, const char*>{i, j, "abc"};
        CHECK(get<0>(t) == i && get<1>(t) == j && get<2>(t) == "abc", "assignment with conversions");
        t = std::tuple<int, int, std::string_view>(k, l, s);
        CHECK(get<0>(t) == k && get<1>(t) == l && get<2>(t) == s, "assignment with conversions");
        xme::Tuple<long long, long long, long long> u{};
        u = std::array<int, 3>{i, j, k};
        CHECK(get<0>(u) == i && get<1>(u) == j && get<2>(u) == k, "assignment from an array");
        struct Agg {
            long long a;
            std::string b;
            int c;
        };
        const xme::Tuple<int, std::string, int> v{i, s, j};
        const Agg g = v;
        CHECK(g.a == i && g.b == s && g.c == j, "conversion to an aggregate");
        const std::array<int, 2> two = xme::Tuple<int, int>{k, l};
        CHECK(two[0] == k && two[1] == l, "conversion to std::array");
        constexpr xme::Tuple<int, char, int> z{3, 'c', 4};
        static_assert(xme::get<0>(z) == 3 && xme::get<1>(z) == 'c' && xme::get<2>(z) == 4 && z < xme::Tuple<int, char, int>{3, 'c', 5});
    }
    c.nontrivial();
}

SUB_T(empty, tuple_of<>, 200, 500);
SUB_T(one_int, tuple_of<int>, 1000, 15000);
SUB_T(one_string, tuple_of<std::string>, 1000, 15000);
SUB_T(two, (tuple_of<int, int>), 2000, 30000);
SUB_T(two_doubles, (tuple_of<double, float>), 2000, 30000);
SUB_T(three, (tuple_of<std::string, int, std::string>), 2000, 30000);
SUB_T(three_tracked, (tuple_of<Tr, Tr, Mo>), 2000, 30000);
SUB_T(empties, (tuple_of<EmptyA, int, EmptyA, EmptyB>), 1500, 20000);
SUB_T(five, (tuple_of<unsigned char, double, bool, int*, Colour>), 2000, 30000);
SUB_T(eight, (tuple_of<int, int, int, std::string, int, unsigned char, double, int>), 2000, 30000);

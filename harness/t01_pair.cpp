// T01: Pair against its two values
#include "values.hpp"
#include <array>
#include <tuple>
#include <utility>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>

using el::world;
using Zero = std::integral_constant<std::size_t, 0>;
using One  = std::integral_constant<std::size_t, 1>;

template<typename T>
constexpr bool tracked = false;
template<el::Kind K, std::size_t P, std::size_t A>
constexpr bool tracked<el::Tracked<K, P, A>> = true;

template<typename A, typename B>
static void holds(const xme::Pair<A, B>& p, const A& a, const B& b, const char* what) {
    CHECK(same(p.first, a), what << ": first is " << show(p.first) << ", not " << show(a));
    CHECK(same(p.second, b), what << ": second is " << show(p.second) << ", not " << show(b));
}

template<typename A, typename B>
static void access(xme::Pair<A, B>& p) {
    using P = xme::Pair<A, B>;
    const P& cp = p;
    using xme::get;
    static_assert(std::is_same_v<decltype(get<0>(p)), A&> && std::is_same_v<decltype(get<1>(p)), B&>);
    static_assert(std::is_same_v<decltype(get<0>(cp)), const A&> && std::is_same_v<decltype(get<1>(cp)), const B&>);
    static_assert(std::is_same_v<decltype(get<0>(std::move(p))), A&&> && std::is_same_v<decltype(get<1>(std::move(p))), B&&>);
    static_assert(std::is_same_v<decltype(p[Zero{}]), A&> && std::is_same_v<decltype(p[One{}]), B&>);
    static_assert(std::is_same_v<decltype(cp[Zero{}]), const A&> && std::is_same_v<decltype(cp[One{}]), const B&>);
    static_assert(std::is_same_v<decltype(std::move(p)[Zero{}]), A&&> && std::is_same_v<decltype(std::move(p)[One{}]), B&&>);
    static_assert(std::is_same_v<decltype(get<0>(std::move(cp))), const A&&> && std::is_same_v<decltype(get<1>(std::move(cp))), const B&&>);
    static_assert(std::is_same_v<decltype(std::move(cp)[Zero{}]), const A&&> && std::is_same_v<decltype(std::move(cp)[One{}]), const B&&>);
    static_assert(std::is_same_v<std::tuple_element_t<0, P>, A> && std::is_same_v<std::tuple_element_t<1, P>, B>);
    static_assert(std::tuple_size_v<P> == 2);
    const void *f = std::addressof(p.first), *s = std::addressof(p.second);
    auto at = [](auto&& x) -> const void* { return std::addressof(x); };
    CHECK(at(get<0>(p)) == f && at(get<1>(p)) == s, "get doesn't give the stored objects");
    CHECK(at(get<0>(cp)) == f && at(get<1>(cp)) == s, "get of a const Pair doesn't give the stored objects");
    CHECK(at(static_cast<const A&>(get<0>(std::move(p)))) == f && at(static_cast<const B&>(get<1>(std::move(p)))) == s, "get of an rvalue doesn't give the stored objects");
    CHECK(at(p[Zero{}]) == f && at(p[One{}]) == s, "indexing doesn't give the stored objects");
    CHECK(at(cp[Zero{}]) == f && at(cp[One{}]) == s, "indexing a const Pair doesn't give the stored objects");
    CHECK(at(static_cast<const A&>(std::move(p)[Zero{}])) == f && at(static_cast<const B&>(std::move(p)[One{}])) == s, "indexing an rvalue doesn't give the stored objects");
    auto& [x, y] = p;
    CHECK(at(x) == f && at(y) == s, "a structured binding doesn't give the stored objects");
    const auto& [cx, cy] = cp;
    CHECK(at(cx) == f && at(cy) == s, "a structured binding of a const Pair doesn't give the stored objects");
    static_assert(std::is_same_v<decltype(cx), const A> || std::is_same_v<decltype(cx), A>);
}

template<typename A, typename B>
static void compare(const xme::Pair<A, B>& p, const xme::Pair<A, B>& q) {
    const bool eq = p.first == q.first && p.second == q.second;
    const int o1  = as_int(std::compare_three_way{}(p.first, q.first));
    const int o   = o1 != 0 ? o1 : as_int(std::compare_three_way{}(p.second, q.second));
    CHECK((p == q) == eq, "== is wrong");
    CHECK((p != q) == !eq, "!= is wrong");
    CHECK(as_int(p <=> q) == o, "<=> gives " << as_int(p <=> q) << " instead of " << o);
    CHECK((p < q) == (o == -1) && (p > q) == (o == 1) && (p <= q) == (o == -1 || o == 0) && (p >= q) == (o == 1 || o == 0),
          "the relational operators don't agree with the lexicographic order");
}

//! Assigns from a pair-like in every value category
template<typename A, typename B, typename Like>
static void assign_from(Case& c, const char* what, Like make_like) {
    struct Guarded {
        u64 before = 0x1122334455667788;
        xme::Pair<A, B> p;
        u64 after = 0x99aabbccddeeff00;
        // (clang 18 generates wrong code when p, with an empty member, is initialized as part of an aggregate)
        explicit Guarded(xme::Pair<A, B>&& from) : p(std::move(from)) {}
    } s(xme::Pair<A, B>{Val<A>::make(c), Val<B>::make(c)});
    auto& p = s.p;
    A a = Val<A>::make(c);
    B b = Val<B>::make(c);
    auto like = make_like(clone(a), clone(b));
    const u64 how = c.draw(3);
    LOG("assign from " << what << " (" << show(a) << ", " << show(b) << ") category " << how);
    xme::Pair<A, B>* r = nullptr;
    const u64 copies = world.copies;
    if constexpr(std::is_copy_assignable_v<A> && std::is_copy_assignable_v<B>) {
        if(how == 0)
            r = &(p = std::as_const(like));
        else if(how == 1)
            r = &(p = like);
        if(how < 2) {
            using std::get;
            using xme::get;
            CHECK(same<A>(get<0>(like), a) && same<B>(get<1>(like), b), "assigning from an lvalue changed it");
        }
    }
    if(!r) {
        const u64 live_copies = world.copies;
        r = &(p = std::move(like));
        CHECK(world.copies == live_copies, "assigning from an rvalue copied an element");
    }
    CHECK(r == &p, "assignment doesn't return the Pair");
    holds(p, a, b, "assignment");
    CHECK(s.before == 0x1122334455667788 && s.after == 0x99aabbccddeeff00, "assignment wrote outside the Pair");
    world.check();
}

template<typename A, typename B>
static void body(Case& c) {
    using P = xme::Pair<A, B>;
    static_assert(std::is_aggregate_v<P>);
    constexpr bool copyable = std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>;
    const A a = Val<A>::make(c), a2 = Val<A>::make(c);
    const B b = Val<B>::make(c), b2 = Val<B>::make(c);
    LOG("(" << show(a) << ", " << show(b) << ") and (" << show(a2) << ", " << show(b2) << ")");
    {
        P p{clone(a), clone(b)};
        holds(p, a, b, "aggregate initialization");
        access(p);
        P q = xme::Pair<A, B>{clone(a2), clone(b2)};
        compare(p, q);
        compare(q, p);
        compare(p, p);
        {
            P r{clone(a), clone(b)};
            compare(p, r);
            P t{clone(a), clone(b2)};
            compare(p, t);
            P u{clone(a2), clone(b)};
            compare(p, u);
        }
        // writing through the accessors
        using xme::get;
        get<0>(p) = clone(a2);
        holds(p, a2, b, "writing get<0>");
        p[One{}] = clone(b2);
        holds(p, a2, b2, "writing p[1]");
        {
            auto& [x, y] = p;
            x = clone(a);
            y = clone(b);
        }
        holds(p, a, b, "writing a structured binding");
    }
    {
        auto p = xme::make_pair(clone(a), clone(b));
        static_assert(std::is_same_v<decltype(p), P>);
        holds(p, a, b, "make_pair");
        xme::Pair d{clone(a2), clone(b2)};
        static_assert(std::is_same_v<decltype(d), P>);
        holds(d, a2, b2, "deduction");
        switch(c.draw(4)) {
        case 0: p.swap(d); break;
        case 1: xme::swap(p, d); break;
        case 2: {
            using std::swap;
            swap(p, d);
            break;
        }
        default: std::ranges::swap(p, d);
        }
        holds(p, a2, b2, "swap");
        holds(d, a, b, "swap (other)");
        // a move gives every element once
        world.copies = world.moves = world.made = world.assigns = 0;
        P m = std::move(d);
        const u64 n = tracked<A> + tracked<B>;
        CHECK(world.moves == n && world.copies == 0 && world.made == 0, "moving a Pair made " << world.moves << " moves and " << world.copies << " copies of its elements");
        holds(m, a, b, "move construction");
        world.moves = world.assigns = 0;
        P* r = &(p = std::move(m));
        CHECK(r == &p && world.assigns == n && world.moves == 0 && world.copies == 0, "move assigning a Pair made " << world.assigns << " assignments of its elements");
        holds(p, a, b, "move assignment");
        if constexpr(copyable) {
            world.copies = world.moves = world.made = world.assigns = 0;
            P k = std::as_const(p);
            CHECK(world.moves == 0 && world.copies == n && world.made == 0, "copying a Pair made " << world.moves << " moves and " << world.copies << " copies of its elements");
            holds(k, a, b, "copy construction");
            holds(p, a, b, "copy construction (source)");
            k.first = clone(a2);
            holds(p, a, b, "changing a copy (source)");
            world.copies = world.moves = world.made = world.assigns = 0;
            r = &(k = std::as_const(p));
            CHECK(r == &k && world.assigns == n && world.moves == 0 && world.copies == 0, "copy assigning a Pair made " << world.assigns << " assignments of its elements");
            holds(k, a, b, "copy assignment");
            holds(p, a, b, "copy assignment (source)");
            P& self = k;
            k = self;
            holds(k, a, b, "self assignment");
            world.copies = world.moves = world.made = 0;
            auto mk = xme::make_pair(a, B(b));
            holds(mk, a, b, "make_pair");
            const u64 ca = tracked<A>, mb = tracked<B>;
            CHECK(world.copies == ca + mb && world.moves >= mb, "make_pair doesn't forward its arguments");
            auto r1 = xme::make_pair(std::cref(a), std::cref(b));
            static_assert(std::is_same_v<decltype(r1), xme::Pair<const A&, const B&>>);
            CHECK(std::addressof(r1.first) == std::addressof(a) && std::addressof(r1.second) == std::addressof(b), "make_pair doesn't unwrap references");
        }
        p.swap(p);
        holds(p, a, b, "swap with itself");
    }
    world.check();
    switch(c.draw(4)) {
    case 0: assign_from<A, B>(c, "std::pair", [](A x, B y) { return std::pair<A, B>(std::move(x), std::move(y)); }); break;
    case 1: assign_from<A, B>(c, "std::tuple", [](A x, B y) { return std::tuple<A, B>(std::move(x), std::move(y)); }); break;
    case 2: assign_from<A, B>(c, "xme::Tuple", [](A x, B y) { return xme::Tuple<A, B>{std::move(x), std::move(y)}; }); break;
    default: assign_from<A, B>(c, "xme::Pair", [](A x, B y) { return xme::Pair<A, B>{std::move(x), std::move(y)}; });
    }
    // references to objects
    {
        A x = clone(a), x2 = clone(a2);
        B y = clone(b), y2 = clone(b2);
        xme::Pair<A&, B&> p{x, y}, q{x2, y2};
        access(p);
        CHECK(std::addressof(p.first) == std::addressof(x) && std::addressof(p.second) == std::addressof(y), "a Pair of references isn't bound to the objects given");
        xme::Pair d{std::ref(x), std::ref(y)};
        static_assert(std::is_same_v<decltype(d), xme::Pair<A&, B&>>);
        CHECK(std::addressof(d.first) == std::addressof(x) && std::addressof(d.second) == std::addressof(y), "deduction doesn't unwrap references");
        auto mk = xme::make_pair(std::ref(x), clone(b2));
        static_assert(std::is_same_v<decltype(mk), xme::Pair<A&, B>>);
        CHECK(std::addressof(mk.first) == std::addressof(x) && same(mk.second, b2), "make_pair of a reference and a value");
        p.swap(q);
        CHECK(same(x, a2) && same(y, b2) && same(x2, a) && same(y2, b), "swapping Pairs of references doesn't exchange the objects");
        p = xme::Pair<A, B>{clone(a), clone(b)};
        CHECK(same(x, a) && same(y, b), "assigning to a Pair of references doesn't assign the objects");
        CHECK(std::addressof(p.first) == std::addressof(x), "assigning to a Pair of references rebinds it");
    }
}

template<typename A, typename B>
static void pair_of(Case& c) {
    world.reset();
    body<A, B>(c);
    world.check_empty();
    c.nontrivial();
}

//! Assignment with conversions
SUB(converting, 4000, 60000) {
    const int i = Val<int>::make(c);
    const float f = Val<float>::make(c);
    const double d = Val<float>::make(c);
    LOG(i << ' ' << f << ' ' << d);
    xme::Pair<long long, double> p{};
    switch(c.draw(3)) {
    case 0: p = std::pair<int, float>(i, f); break;
    case 1: p = xme::Pair<int, float>{i, f}; break;
    default: p = std::tuple<int, float>(i, f);
    }
    CHECK(same<long long>(p.first, i) && same<double>(p.second, f), "assignment doesn't convert the elements");
    const int j = Val<int>::make(c);
    p = std::array<int, 2>{i, j};
    CHECK(same<long long>(p.first, i) && same<double>(p.second, j), "assignment from an array");
    const std::string s = Val<std::string>::make(c);
    xme::Pair<std::string, std::string> q{};
    std::array<std::string, 2> arr{s, s + "x"};
    q = arr;
    CHECK(q.first == s && q.second == s + "x" && arr[0] == s && arr[1] == s + "x", "assignment from an array of strings");
    q = std::pair<const char*, std::string_view>("abc", s);
    CHECK(q.first == "abc" && q.second == s, "assignment from other string types");
    // swapping the roles: assignment from a pair of references to itself
    std::tie(q.first, q.second) = std::pair<std::string, std::string>(s, "z");
    CHECK(q.first == s && q.second == "z", "std::tie of the members");
    std::string rs = s;
    int ri = i;
    xme::Pair<std::string&&, int&&> rv{std::move(rs), std::move(ri)};
    static_assert(std::is_same_v<decltype(xme::get<0>(rv)), std::string&> && std::is_same_v<decltype(xme::get<0>(std::move(rv))), std::string&&>);
    static_assert(std::is_same_v<decltype(rv[Zero{}]), std::string&> && std::is_same_v<decltype(std::move(rv)[One{}]), int&&>);
    CHECK(&rv.first == &rs && &rv[One{}] == &ri, "a Pair of rvalue references binds other objects");
    const std::string taken = xme::get<0>(std::move(rv));
    CHECK(taken == s, "taking an element of a Pair of rvalue references");
    constexpr xme::Pair<int, char> k{3, 'c'};
    static_assert(k.first == 3 && xme::get<1>(k) == 'c' && k < xme::Pair<int, char>{3, 'd'});
    c.nontrivial();
}

SUB_T(int_int, (pair_of<int, int>), 3000, 40000);
SUB_T(int_double, (pair_of<int, double>), 3000, 40000);
SUB_T(double_double, (pair_of<double, double>), 3000, 40000);
SUB_T(float_uchar, (pair_of<float, unsigned char>), 2000, 30000);
SUB_T(string_string, (pair_of<std::string, std::string>), 2000, 30000);
SUB_T(string_bool, (pair_of<std::string, bool>), 2000, 30000);
SUB_T(tracked_tracked, (pair_of<Tr, Tr>), 2000, 30000);
SUB_T(tracked_move_only, (pair_of<Tr, Mo>), 2000, 30000);
SUB_T(move_only_move_only, (pair_of<Mo, Mo>), 2000, 30000);
SUB_T(empty_int, (pair_of<EmptyA, int>), 1500, 20000);
SUB_T(string_empty, (pair_of<std::string, EmptyA>), 1500, 20000);
SUB_T(empty_empty, (pair_of<EmptyA, EmptyB>), 500, 3000);
SUB_T(enum_pointer, (pair_of<Colour, int*>), 1500, 20000);

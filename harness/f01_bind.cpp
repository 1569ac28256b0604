// F01: bind_front and bind_back against the arguments given
#include "values.hpp"
#include <functional>
#include <tuple>
#include <typeindex>
#include <utility>
#include <xme/core/functional/bind.hpp>

using el::world;

enum Category { lvalue, const_lvalue, rvalue, const_rvalue };
template<typename A>
static Category category() {
    constexpr bool k = std::is_const_v<std::remove_reference_t<A>>;
    return std::is_lvalue_reference_v<A> ? (k ? const_lvalue : lvalue) : (k ? const_rvalue : rvalue);
}
static const char* name(Category k) {
    const char* n[] = {"an lvalue", "a const lvalue", "an rvalue", "a const rvalue"};
    return n[k];
}

struct Arg {
    const void* where;
    Category cat;
    std::type_index type;
    std::string value;
};

//! Records a call
struct Log {
    std::vector<Arg> args;
    Category self = lvalue;
    int calls = 0, state = 0;
    const void* where = nullptr;
};

template<typename T>
static std::string text(const T& x) {
    if constexpr(requires { x.get(); } && !requires { x.get().get(); } && !requires(T y) { typename T::type; })
        return std::to_string(x.get());
    else if constexpr(requires { typename T::type; x.get(); })
        return "ref " + show(x.get());
    else
        return show(x);
}

struct Recorder {
    Log* log;
    int state;
    template<typename... A>
    long rec(Category self, A&&... a) const {
        log->args  = {Arg{std::addressof(a), category<A>(), typeid(std::remove_cvref_t<A>), text(a)}...};
        log->self  = self;
        log->state = state;
        log->where = this;
        return ++log->calls + 1000;
    }
    template<typename... A>
    long operator()(A&&... a) & { return rec(lvalue, std::forward<A>(a)...); }
    template<typename... A>
    long operator()(A&&... a) const& { return rec(const_lvalue, std::forward<A>(a)...); }
    template<typename... A>
    long operator()(A&&... a) && { return rec(rvalue, std::forward<A>(a)...); }
    template<typename... A>
    long operator()(A&&... a) const&& { return rec(const_rvalue, std::forward<A>(a)...); }
};

//! What the bound arguments must look like to the callee
template<typename T>
static Arg expected(const T& x, Category k) {
    return Arg{nullptr, k, typeid(T), text(x)};
}

template<typename... T>
static std::tuple<T...> draw(Case& c) {
    return std::tuple<T...>{Val<T>::make(c)...};
}

//! Calls b, as category K, with args...; where the objects passed are known their addresses are compared
template<typename B, typename... C>
static void call(Case& c, B& b, Log& log, Category k, bool front, const std::vector<Arg>& bound, int state, C&&... args) {
    std::vector<Arg> called{Arg{std::addressof(args), category<C>(), typeid(std::remove_cvref_t<C>), text(args)}...};
    std::vector<Arg> want;
    auto add = [&](const std::vector<Arg>& v, bool is_bound) {
        for(Arg a : v) {
            if(is_bound)
                a.cat = k;
            want.push_back(a);
        }
    };
    if(front)
        add(bound, true), add(called, false);
    else
        add(called, false), add(bound, true);
    const int calls = log.calls;
    const u64 copies = world.copies, moves = world.moves;
    long r;
    static_assert(std::is_same_v<decltype(b(std::forward<C>(args)...)), long>);
    switch(k) {
    case lvalue: r = b(std::forward<C>(args)...); break;
    case const_lvalue: r = std::as_const(b)(std::forward<C>(args)...); break;
    case rvalue: r = std::move(b)(std::forward<C>(args)...); break;
    default: r = std::move(std::as_const(b))(std::forward<C>(args)...);
    }
    CHECK(log.calls == calls + 1 && r == log.calls + 1000, "one call made " << log.calls - calls << " calls, or its result was lost");
    CHECK(log.self == k && log.state == state, "the function is called as " << name(log.self) << " instead of " << name(k) << ", or is another one");
    CHECK(log.args.size() == want.size(), "the function receives " << log.args.size() << " arguments instead of " << want.size());
    const char *lo = reinterpret_cast<const char*>(&b), *hi = lo + sizeof b;
    CHECK(log.where >= lo && log.where < hi, "the function called isn't the one stored");
    for(std::size_t i = 0; i < want.size(); ++i) {
        const Arg &g = log.args[i], &w = want[i];
        CHECK(g.type == w.type && g.value == w.value, "argument " << i << " is " << g.value << " instead of " << w.value);
        CHECK(g.cat == w.cat, "argument " << i << " is passed as " << name(g.cat) << " instead of " << name(w.cat));
        if(w.where)
            CHECK(g.where == w.where, "argument " << i << " is another object than the one given");
        else
            CHECK(g.where >= lo && g.where < hi, "bound argument " << i << " isn't the one stored");
    }
    CHECK(world.copies == copies && world.moves == moves, "the call itself copies or moves arguments");
    world.check();
}

template<bool Front, typename... Bound, std::size_t... I>
static void shapes(Case& c, std::tuple<Bound...> values, std::index_sequence<I...>) {
    Log log;
    const std::vector<Arg> bound{expected(std::get<I>(values), lvalue)...};
    const int state = static_cast<int>(c.draw(100));
    auto make = [&](auto&& f) {
        if constexpr(Front)
            return xme::bind_front(std::forward<decltype(f)>(f), std::move(std::get<I>(values))...);
        else
            return xme::bind_back(std::forward<decltype(f)>(f), std::move(std::get<I>(values))...);
    };
    Recorder rec{&log, state};
    auto b = c.draw(2) ? make(rec) : make(Recorder{&log, state});
    rec.state = -1;
    LOG((Front ? "bind_front " : "bind_back ") << sizeof...(Bound) << " arguments");
    for(int round = 0; round < 3; ++round) {
        const Category k = static_cast<Category>(c.draw(4));
        Tr t(static_cast<int>(c.draw(100)));
        Mo m(static_cast<int>(c.draw(100)));
        std::string s = Val<std::string>::make(c);
        int i = Val<int>::make(c);
        const u64 shape = c.draw(7);
        LOG("call as " << name(k) << " with arguments of shape " << shape);
        switch(shape) {
        case 0: call(c, b, log, k, Front, bound, state); break;
        case 1: call(c, b, log, k, Front, bound, state, t); break;
        case 2: call(c, b, log, k, Front, bound, state, std::move(m)); break;
        case 3: call(c, b, log, k, Front, bound, state, i, std::as_const(s)); break;
        case 4: call(c, b, log, k, Front, bound, state, std::move(std::as_const(t)), m, std::move(s)); break;
        case 5: call(c, b, log, k, Front, bound, state, s, std::move(i), t, std::as_const(m)); break;
        default: call(c, b, log, k, Front, bound, state, std::as_const(i), std::move(t), std::move(s), i);
        }
        if(sizeof...(Bound) && shape)
            c.nontrivial();
    }
}

template<typename... Bound>
static void bound_to(Case& c) {
    auto v = draw<Bound...>(c);
    if(c.draw(2))
        shapes<true, Bound...>(c, std::move(v), std::index_sequence_for<Bound...>{});
    else
        shapes<false, Bound...>(c, std::move(v), std::index_sequence_for<Bound...>{});
}

SUB(calls, 12000, 150000) {
    world.reset();
    switch(c.draw(6)) {
    case 0: bound_to<Tr>(c); break;
    case 1: bound_to<int, std::string>(c); break;
    case 2: bound_to<Tr, Mo, Tr>(c); break;
    case 3: bound_to<std::string, Tr, int, Mo>(c); break;
#ifndef __clang__  // clang 18 generates wrong code (or none) for [[no_unique_address]] members of members
    case 4: bound_to<EmptyA, double, EmptyA>(c); break;
#endif
    default: bound_to<>(c);
    }
    world.check_empty();
}

//! How the bound arguments are stored
SUB(storage, 6000, 80000) {
    world.reset();
    {
        const bool front = c.draw(2);
        Log log;
        Tr t(static_cast<int>(c.draw(100)));
        Mo m(static_cast<int>(c.draw(100)));
        std::string s = Val<std::string>::make(c);
        int i = Val<int>::make(c);
        Recorder rec{&log, 5};
        LOG((front ? "front " : "back ") << t.get() << ' ' << m.get() << ' ' << show(s) << ' ' << i);
        auto both = [&](auto&& use, auto&&... a) {
            if(front) {
                auto b = xme::bind_front(rec, std::forward<decltype(a)>(a)...);
                use(b);
            }
            else {
                auto b = xme::bind_back(rec, std::forward<decltype(a)>(a)...);
                use(b);
            }
        };
        // lvalues are copied once, and then independent
        world.copies = world.moves = 0;
        both([&](auto& b) {
            CHECK(world.copies == 1, "binding an lvalue makes " << world.copies << " copies");
            const int v = t.get();
            const std::string sv = s;
            t = Tr(777);
            s = "changed";
            call(c, b, log, lvalue, front, {expected(Tr(v), lvalue), expected(sv, lvalue)}, 5, i);
            t = Tr(v), s = sv;
        }, t, s);
        // rvalues are moved
        world.copies = 0;
        const int mv = m.get();
        both([&](auto& b) {
            CHECK(world.copies == 0, "binding an rvalue copies it");
            CHECK(m.get() == Mo::moved_from, "binding an rvalue doesn't move it");
            call(c, b, log, const_lvalue, front, {expected(Mo(mv), lvalue)}, 5);
        }, std::move(m));
        // const lvalues are copied to modifiable ones
        both([&](auto& b) { call(c, b, log, lvalue, front, {expected(t, lvalue)}, 5, t); }, std::as_const(t));
        // references stay references
        both([&](auto& b) {
            call(c, b, log, rvalue, front, {Arg{nullptr, rvalue, typeid(std::reference_wrapper<int>), "ref " + show(i)}}, 5, s);
            ++reinterpret_cast<unsigned&>(i);
            call(c, b, log, lvalue, front, {Arg{nullptr, lvalue, typeid(std::reference_wrapper<int>), "ref " + show(i)}}, 5, s);
        }, std::ref(i));
        // arrays and functions decay
        char text_[4] = "abc";
        both([&](auto& b) {
            b(t);
            CHECK(log.args.size() == 2 && log.args[front ? 0 : 1].type == typeid(char*), "an array isn't bound as a pointer");
        }, text_);
        // in place modification, and independence of copies
        auto counter = [](int& n) -> int& { return ++n; };
        auto b1 = xme::bind_front(counter, 10);
        int& r = b1();
        CHECK(r == 11 && b1() == 12 && r == 12, "a bound argument isn't modified in place");
        auto b2 = b1;
        CHECK(b2() == 13 && b2() == 14 && b1() == 13, "a copy of a bound object isn't independent");
        auto b3 = std::move(b2);
        CHECK(b3() == 15, "a moved bound object");
        auto k1 = xme::bind_back(counter, 10);
        CHECK(k1() == 11 && k1() == 12, "a bound argument isn't modified in place (back)");
        auto k2 = k1;
        CHECK(k2() == 13 && k1() == 13 && k2() == 14 && k1() == 14, "a copy of a bound object isn't independent (back)");
        // copies copy each bound argument, moves move them
        auto bt = xme::bind_front(rec, t, s);
        world.copies = world.moves = 0;
        auto bc = bt;
        CHECK(world.copies == 1 && world.moves == 0, "copying a bound object makes " << world.copies << " copies");
        auto bm = std::move(bc);
        CHECK(world.copies == 1 && world.moves == 1, "moving a bound object makes " << world.copies - 1 << " copies");
        call(c, bm, log, lvalue, true, {expected(t, lvalue), expected(s, lvalue)}, 5);
        call(c, bt, log, lvalue, true, {expected(t, lvalue), expected(s, lvalue)}, 5);
        auto bb = xme::bind_back(rec, t, s);
        world.copies = world.moves = 0;
        auto bbc = bb;
        auto bbm = std::move(bbc);
        CHECK(world.copies == 1 && world.moves == 1, "copying and moving a bound object makes " << world.copies << " copies");
        call(c, bbm, log, rvalue, false, {expected(t, rvalue), expected(s, rvalue)}, 5);
        // assignment
        auto x1 = xme::bind_front(Recorder{&log, 1}, Tr(1), std::string("one"));
        auto x2 = xme::bind_front(Recorder{&log, 2}, Tr(2), std::string("two"));
        x1 = x2;
        call(c, x1, log, lvalue, true, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2);
        call(c, x2, log, lvalue, true, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2);
        auto x3 = xme::bind_front(Recorder{&log, 3}, Tr(3), std::string("three"));
        world.copies = 0;
        x3 = std::move(x1);
        CHECK(world.copies == 0, "a move assignment copies");
        call(c, x3, log, lvalue, true, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2);
        auto y1 = xme::bind_back(Recorder{&log, 1}, Tr(1), std::string("one"));
        auto y2 = xme::bind_back(Recorder{&log, 2}, Tr(2), std::string("two"));
        y1 = y2;
        call(c, y1, log, lvalue, false, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2, i);
        y1 = xme::bind_back(Recorder{&log, 3}, Tr(3), std::string("three"));
        call(c, y1, log, lvalue, false, {expected(Tr(3), lvalue), expected(std::string("three"), lvalue)}, 3, i);
        call(c, y2, log, lvalue, false, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2, i);
        world.copies = 0;
        y1 = std::move(y2);
        CHECK(world.copies == 0, "a move assignment copies (back)");
        call(c, y1, log, lvalue, false, {expected(Tr(2), lvalue), expected(std::string("two"), lvalue)}, 2, i);
    }
    world.check_empty();
    c.nontrivial();
}

// targets of every kind ---------------------------------------------------------------------------------------------

static long weigh4(int a, int b, int c, int d) { return a + 10l * b + 100l * c + 1000l * d; }
static std::string join3(const std::string& a, std::string b, const char* d) { return a + "|" + b + "|" + d; }
static Mo pass(Mo m, int add) { return Mo(m.get() + add); }
static int hits;
static void hit(int n) { hits += n; }
static int& pick(int& a, int& b, bool second) { return second ? b : a; }

struct Object {
    int base;
    int field;
    long mem(int a, int b) { return base + 10l * a + 100l * b; }
    long cmem(int a, int b) const { return base + 1000l * a + 10000l * b; }
    virtual int virt(int a) { return base + a; }
    virtual ~Object() = default;
};
struct Derived : Object {
    int virt(int a) override { return base - a; }
};

#if defined(__cpp_explicit_this_parameter)
//! bindFront<f>(args...) and bindBack<f>(args...), of C++23: the function is a template argument
template<bool Front, auto F, typename... A>
static auto bind_nttp(A&&... a) {
    if constexpr(Front)
        return xme::bindFront<F>(std::forward<A>(a)...);
    else
        return xme::bindBack<F>(std::forward<A>(a)...);
}

static Log* static_log;
struct Forwarding {
    template<typename... A>
    long operator()(A&&... a) const { return Recorder{static_log, 7}(std::forward<A>(a)...); }
};

template<bool Front, typename... Bound, std::size_t... I>
static void static_shapes(Case& c, std::tuple<Bound...> values, std::index_sequence<I...>) {
    Log log;
    static_log = &log;
    const std::vector<Arg> bound{expected(std::get<I>(values), lvalue)...};
    auto b = bind_nttp<Front, Forwarding{}>(std::move(std::get<I>(values))...);
    for(int round = 0; round < 3; ++round) {
        const Category k = static_cast<Category>(c.draw(4));
        Tr t(static_cast<int>(c.draw(100)));
        std::string s = Val<std::string>::make(c);
        int i = Val<int>::make(c);
        auto check = [&](auto&&... args) {
            log = {};
            std::vector<Arg> want = Front ? bound : std::vector<Arg>{};
            for(Arg& w : want)
                w.cat = k;
            (want.push_back(Arg{std::addressof(args), category<decltype(args)>(), typeid(std::remove_cvref_t<decltype(args)>), text(args)}), ...);
            if(!Front)
                for(Arg w : bound) {
                    w.cat = k;
                    want.push_back(w);
                }
            const u64 copies = world.copies, moves = world.moves;
            long r = 0;
            switch(k) {
            case lvalue: r = b(std::forward<decltype(args)>(args)...); break;
            case const_lvalue: r = std::as_const(b)(std::forward<decltype(args)>(args)...); break;
            case rvalue: r = std::move(b)(std::forward<decltype(args)>(args)...); break;
            default: r = std::move(std::as_const(b))(std::forward<decltype(args)>(args)...);
            }
            CHECK(r == log.calls + 1000, "the result isn't the function's");
            CHECK(log.args.size() == want.size(), log.args.size() << " arguments arrived, not " << want.size());
            for(std::size_t n = 0; n < want.size(); ++n) {
                const Arg &g = log.args[n], &w = want[n];
                CHECK(g.type == w.type && g.value == w.value, "argument " << n << " is " << g.value << " instead of " << w.value);
                CHECK(g.cat == w.cat, "argument " << n << " has another value category");
                CHECK(w.where == nullptr || w.where == g.where, "argument " << n << " is another object than the one given");
            }
            CHECK(world.copies == copies && world.moves == moves, "the call itself copies or moves arguments");
        };
        switch(c.draw(4)) {
        case 0: check(); break;
        case 1: check(t); break;
        case 2: check(std::move(s), std::as_const(i)); break;
        default: check(i, std::move(t), s);
        }
        if(sizeof...(Bound))
            c.nontrivial();
    }
}

template<typename... Bound>
static void static_bound_to(Case& c) {
    auto v = draw<Bound...>(c);
    if(c.draw(2))
        static_shapes<true, Bound...>(c, std::move(v), std::index_sequence_for<Bound...>{});
    else
        static_shapes<false, Bound...>(c, std::move(v), std::index_sequence_for<Bound...>{});
}

SUB(template_argument, 9000, 100000) {
    world.reset();
    switch(c.draw(4)) {
    case 0: static_bound_to<Tr>(c); break;
    case 1: static_bound_to<int, std::string>(c); break;
    case 2: static_bound_to<Tr, Mo, Tr>(c); break;
    default: static_bound_to<>(c);
    }
    world.check_empty();
    const int a = static_cast<int>(c.draw(10)), b = static_cast<int>(c.draw(10)), d = static_cast<int>(c.draw(10)), e = static_cast<int>(c.draw(10));
    const long want = weigh4(a, b, d, e);
    CHECK(xme::bindFront<weigh4>(a)(b, d, e) == want && xme::bindFront<&weigh4>(a, b)(d, e) == want && xme::bindFront<weigh4>()(a, b, d, e) == want
          && xme::bindFront<weigh4>(a, b, d, e)() == want, "bindFront of a function");
    CHECK(xme::bindBack<weigh4>(e)(a, b, d) == want && xme::bindBack<&weigh4>(d, e)(a, b) == want && xme::bindBack<weigh4>()(a, b, d, e) == want
          && xme::bindBack<weigh4>(a, b, d, e)() == want, "bindBack of a function");
}
#endif

SUB(targets, 12000, 150000) {
    world.reset();
    const int a = static_cast<int>(c.draw(10)), b = static_cast<int>(c.draw(10)), d = static_cast<int>(c.draw(10)), e = static_cast<int>(c.draw(10));
    const std::string s = Val<std::string>::make(c), t = Val<std::string>::make(c);
    LOG(a << b << d << e << ' ' << show(s) << ' ' << show(t));
    {
        // function, for every split of the arguments
        const long want = weigh4(a, b, d, e);
        CHECK(xme::bind_front(weigh4)(a, b, d, e) == want && xme::bind_front(weigh4, a)(b, d, e) == want && xme::bind_front(weigh4, a, b)(d, e) == want
              && xme::bind_front(weigh4, a, b, d)(e) == want && xme::bind_front(weigh4, a, b, d, e)() == want, "bind_front of a function");
        CHECK(xme::bind_back(weigh4)(a, b, d, e) == want && xme::bind_back(weigh4, e)(a, b, d) == want && xme::bind_back(weigh4, d, e)(a, b) == want
              && xme::bind_back(weigh4, b, d, e)(a) == want && xme::bind_back(weigh4, a, b, d, e)() == want, "bind_back of a function");
        CHECK(xme::bind_back(&weigh4, d, e)(a, b) == want && xme::bind_front(&weigh4, a)(b, d, e) == want, "binding a function pointer");
        // nested
        CHECK(xme::bind_front(xme::bind_back(weigh4, e), a)(b, d) == want && xme::bind_back(xme::bind_front(weigh4, a), e)(b, d) == want
              && xme::bind_front(xme::bind_front(weigh4, a), b)(d, e) == want && xme::bind_back(xme::bind_back(weigh4, e), d)(a, b) == want, "nested binding");
        CHECK(xme::bind_front(join3, s)(t, "x") == s + "|" + t + "|x" && xme::bind_back(join3, t, "y")(s) == s + "|" + t + "|y", "binding strings");
        auto keep = xme::bind_front(join3, s, t);
        CHECK(keep("1") == s + "|" + t + "|1" && keep("2") == s + "|" + t + "|2", "the second call of an lvalue sees other arguments");
        auto keepb = xme::bind_back(join3, t, "z");
        CHECK(keepb(s) == s + "|" + t + "|z" && keepb(t) == t + "|" + t + "|z", "the second call of an lvalue sees other arguments (back)");
    }
    {
        // the result: by value (move-only), by reference, none
        auto f = xme::bind_back(pass, b);
        static_assert(std::is_same_v<decltype(f(Mo(1))), Mo>);
        CHECK(f(Mo(a)).get() == a + b, "a move-only argument and result");
        auto once = xme::bind_front(pass, Mo(a));
        CHECK(std::move(once)(d).get() == a + d, "a move-only bound argument of an rvalue");
        int x = a, y = b;
        const bool second = c.draw(2);
        auto g = xme::bind_back(pick, second);
        static_assert(std::is_same_v<decltype(g(x, y)), int&>);
        CHECK(&g(x, y) == (second ? &y : &x), "a reference is returned to another object");
        auto h = xme::bind_front(pick, std::ref(x), std::ref(y));
        CHECK(&h(second) == (second ? &y : &x), "reference_wrappers are not passed as such");
        hits = 0;
        static_assert(std::is_void_v<decltype(xme::bind_front(hit, a)())>);
        xme::bind_front(hit, a)();
        xme::bind_back(hit)(b);
        CHECK(hits == a + b, "a function without result");
    }
    {
        // members
        Object o;
        o.base = a, o.field = e;
        Derived der;
        der.base = b, der.field = d;
        CHECK(xme::bind_front(&Object::mem, &o, b)(d) == o.mem(b, d) && xme::bind_front(&Object::mem, std::ref(o))(b, d) == o.mem(b, d)
              && xme::bind_front(&Object::mem)(o, b, d) == o.mem(b, d) && xme::bind_back(&Object::mem, d)(o, b) == o.mem(b, d)
              && xme::bind_back(&Object::mem, b, d)(&o) == o.mem(b, d), "binding a member function");
        auto byval = xme::bind_front(&Object::cmem, o);
        o.base = -1;
        CHECK(byval(b, d) == a + 1000l * b + 10000l * d && std::as_const(byval)(b, d) == a + 1000l * b + 10000l * d, "an object bound by value isn't a copy");
        CHECK(xme::bind_front(&Object::virt, static_cast<Object*>(&der))(d) == b - d && xme::bind_back(&Object::virt, d)(static_cast<Object&>(der)) == b - d, "binding a virtual function");
        auto field = xme::bind_front(&Object::field, &o);
        static_assert(std::is_same_v<decltype(field()), int&>);
        CHECK(&field() == &o.field && &xme::bind_back(&Object::field)(o) == &o.field, "binding a data member");
        field() = 99;
        CHECK(o.field == 99, "writing a bound data member");
        auto fv = xme::bind_front(&Object::field, der);
        static_assert(std::is_same_v<decltype(fv()), int&> && std::is_same_v<decltype(std::as_const(fv)()), const int&> && std::is_same_v<decltype(std::move(fv)()), int&&>);
        fv() = 5;
        CHECK(fv() == 5 && der.field == d, "a data member of an object bound by value");
    }
    {
        // state of the function object
        auto counter = [n = a](int step) mutable { return n += step; };
        auto f = xme::bind_front(counter, b);
        CHECK(f() == a + b && f() == a + 2 * b, "the state of a bound function object");
        auto g = f;
        CHECK(g() == a + 3 * b && f() == a + 3 * b, "a copy shares the state of the function object");
        auto h = xme::bind_back(counter, b);
        CHECK(h() == a + b && h() == a + 2 * b && counter(0) == a, "the state of a bound function object (back)");
        // exceptions
        auto thrower = [](int n, int m) -> int { throw n * 10 + m; };
        int got = -1;
        try {
            if(c.draw(2))
                xme::bind_front(thrower, a)(b);
            else
                xme::bind_back(thrower, b)(a);
        }
        catch(int n) {
            got = n;
        }
        CHECK(got == a * 10 + b, "an exception of the function does not arrive");
    }
    world.check_empty();
    c.nontrivial();
}

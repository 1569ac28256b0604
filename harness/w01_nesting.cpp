// W01: types of the library inside types of the library, against types of std built the same way
#include "elements.hpp"
#include <algorithm>
#include <functional>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/ranges/uninitialized.hpp>

using el::world;
using Tr = el::Tracked<el::copyable>;

//! What a type is compared with (model), how an object is made to be like one (put), how both are
//! changed the same way (change) and whether they are the same
template<typename T>
struct Kind;

template<typename T>
using Model = typename Kind<T>::model;

static int effective;

//! A copy, made before what it is a copy of changes
template<typename M>
static M copy_of(const M& m) {
    return m;
}


//! A LinkedList isn't swapped, nor copied where it would be converted
template<typename T>
constexpr bool swaps = true;
template<typename T, typename A>
constexpr bool swaps<xme::LinkedList<T, A>> = false;
template<typename A, typename B>
constexpr bool swaps<xme::Pair<A, B>> = swaps<A> && swaps<B>;
template<typename... T>
constexpr bool swaps<xme::Tuple<T...>> = (swaps<T> && ...);

// Leaves --------------------------------------------------------------------------------------------------------------

template<>
struct Kind<int> {
    using model = int;
    static int some(Case& c) { return static_cast<int>(c.draw(20)); }
    static void put(int& t, int m) { t = m; }
    static void change(Case& c, int& t, int& m) { t = m = some(c); }
    static bool same(const int& t, int m) { return t == m; }
};
template<>
struct Kind<std::string> {
    using model = std::string;
    static std::string some(Case& c) { return std::string(c.chance(1, 4) ? 20 + c.draw(20) : c.draw(4), static_cast<char>('a' + c.draw(26))); }
    static void put(std::string& t, const std::string& m) { t = m; }
    static void change(Case& c, std::string& t, std::string& m) {
        m += static_cast<char>('A' + c.draw(26));
        t += m.back();
    }
    static bool same(const std::string& t, const std::string& m) { return t == m; }
};
template<>
struct Kind<Tr> {
    using model = int;
    static int some(Case& c) { return static_cast<int>(c.draw(20)); }
    static void put(Tr& t, int m) { t = Tr(m); }
    static void change(Case& c, Tr& t, int& m) {
        m = some(c);
        t = Tr(m);
    }
    static bool same(const Tr& t, int m) { return t.get() == m; }
};

// Several of a kind ---------------------------------------------------------------------------------------------------

template<typename M, typename E>
static M some_elements(Case& c) {
    M m;
    for(u64 n = c.draw(5); n-- > 0;)
        m.push_back(Kind<E>::some(c));
    return m;
}

template<typename E, typename A>
struct Kind<xme::Array<E, A>> {
    using T     = xme::Array<E, A>;
    using model = std::vector<Model<E>>;
    static model some(Case& c) { return some_elements<model, E>(c); }
    static void put(T& t, const model& m) {
        t.clear();
        for(const auto& x : m)
            Kind<E>::put(t.emplace_back(), x);
    }
    static bool same(const T& t, const model& m) {
        if(t.size() != m.size() || t.empty() != m.empty())
            return false;
        std::size_t i = 0;
        for(const E& x : t)
            if(!Kind<E>::same(x, m[i++]))
                return false;
        // backwards, as constants, and as a view
        using R = xme::ReverseIterator<typename T::const_iterator>;
        for(R r(t.end()), e(t.begin()); r != e; ++r)
            if(!Kind<E>::same(*r, m[--i]))
                return false;
        using C = xme::ConstIterator<typename T::iterator>;
        for(C k(const_cast<T&>(t).begin()), e(const_cast<T&>(t).end()); k != e; ++k)
            if(!Kind<E>::same(*k, m[i++]))
                return false;
        xme::ArrayView<const E> v(t.data(), t.size());
        for(std::size_t k = 0; k < v.size(); ++k)
            if(std::addressof(v[k]) != std::addressof(t[k]))
                return false;
        return t.empty() || (std::addressof(t.front()) == std::addressof(t[0]) && std::addressof(t.back()) == std::addressof(t[t.size() - 1]));
    }
    static void change(Case& c, T& t, model& m) {
        const std::size_t n = m.size(), i = n ? c.draw(n) : 0, j = n ? c.draw(n) : 0;
        const auto at       = static_cast<std::ptrdiff_t>(i);
        switch(c.draw(n ? 17 : 4)) {
        case 0:
            m.push_back(Kind<E>::some(c));
            Kind<E>::put(t.emplace_back(), m.back());
            break;
        case 1: {
            m.push_back(Kind<E>::some(c));
            E x{};
            Kind<E>::put(x, m.back());
            if constexpr(std::convertible_to<E, E>) {
                if(c.draw(2))
                    t.push_back(std::move(x));
                else
                    t.push_back(std::as_const(x));
                break;
            }
            t.emplace_back(std::move(x));
            break;
        }
        case 2: t.reserve(c.draw(12)); break;
        case 3: {
            T other(t);
            other.swap(t);
            break;
        }
        case 4:
            if constexpr(std::convertible_to<E, E>)
                t.push_back(t[i]);
            else
                t.emplace_back(t[i]);
            m.push_back(copy_of(m[i]));
            break;
        case 5: t[i] = t[j], m[i] = copy_of(m[j]); break;
        case 6:
            if constexpr(std::convertible_to<E, E>) {
                const auto r = t.insert(t.begin() + at, t[j]);
                CHECK(r == t.begin() + at, "insert returned another place");
                m.insert(m.begin() + at, copy_of(m[j]));
            }
            break;
        case 7:
            t.erase(t.begin() + at);
            m.erase(m.begin() + at);
            break;
        case 8:
            t.pop_back();
            m.pop_back();
            break;
        case 9: {
            const std::size_t a = std::min(i, j), b = std::max(i, j);
            t.erase(t.begin() + static_cast<std::ptrdiff_t>(a), t.begin() + static_cast<std::ptrdiff_t>(b));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b));
            break;
        }
        case 10:
            if constexpr(swaps<E>) {
                xme::reverse(t);
                std::reverse(m.begin(), m.end());
            }
            break;
        case 11:
            if constexpr(swaps<E> && std::convertible_to<E, E>) {
                std::rotate(t.begin(), t.begin() + at, t.end());
                std::rotate(m.begin(), m.begin() + at, m.end());
            }
            break;
        case 12:
            if constexpr(std::equality_comparable<E> && std::equality_comparable<Model<E>>) {
                const auto f = xme::find(t, t[i]);
                CHECK(f - t.begin() == std::find(m.begin(), m.end(), m[i]) - m.begin(), "find found another element");
            }
            break;
        case 13: {
            // moved out of one place into another
            if(n == c.draw(20))
                t.clear(), m.clear();
            else if(i != j) {
                t[i] = std::move(t[j]);
                m[i] = m[j];
                Kind<E>::put(t[j], m[j] = Kind<E>::some(c));
            }
            break;
        }
        case 14: {
            // a copy made of elements, elsewhere
            T other(t.begin(), t.end());
            CHECK(same(other, m), "an Array made of the elements has others");
            t = std::move(other);
            break;
        }
        case 15:
            if constexpr(std::convertible_to<E&, E> && swaps<E>) {
                const T other(t);
                t.insert(t.begin() + at, other.begin(), other.begin() + static_cast<std::ptrdiff_t>(j));
                const model copy(m);
                m.insert(m.begin() + at, copy.begin(), copy.begin() + static_cast<std::ptrdiff_t>(j));
            }
            break;
        default: Kind<E>::change(c, t[i], m[i]);
        }
    }
};

template<typename E, typename A>
struct Kind<xme::LinkedList<E, A>> {
    using T     = xme::LinkedList<E, A>;
    using model = std::vector<Model<E>>;
    static model some(Case& c) { return some_elements<model, E>(c); }
    static void put(T& t, const model& m) {
        t.clear();
        for(auto i = m.rbegin(); i != m.rend(); ++i)
            Kind<E>::put(t.emplace_front(), *i);
    }
    static bool same(const T& t, const model& m) {
        std::size_t n = 0;
        for(const E& x : t) {
            if(n == m.size() || !Kind<E>::same(x, m[n]))
                return false;
            ++n;
        }
        return n == m.size() && t.empty() == m.empty();
    }
    static void change(Case& c, T& t, model& m) {
        const std::size_t n = m.size(), i = n ? c.draw(n) : 0;
        const auto at       = static_cast<std::ptrdiff_t>(i);
        auto before         = t.before_begin();
        for(std::size_t k = 0; k < i; ++k)
            ++before;
        switch(c.draw(n ? 12 : 3)) {
        case 0:
            m.insert(m.begin(), Kind<E>::some(c));
            Kind<E>::put(t.emplace_front(), m.front());
            break;
        case 1: {
            m.insert(m.begin(), Kind<E>::some(c));
            E x{};
            Kind<E>::put(x, m.front());
            if(c.draw(2))
                t.push_front(std::move(x));
            else
                t.push_front(x);
            break;
        }
        case 2: {
            T other(t);
            t = std::move(other);
            break;
        }
        case 3:
            t.push_front(*std::next(before));
            m.insert(m.begin(), copy_of(m[i]));
            break;
        case 4: {
            E x{};
            m.insert(m.begin() + at, Kind<E>::some(c));
            Kind<E>::put(x, m[i]);
            const auto r = t.emplace_after(before, std::move(x));
            CHECK(r == std::next(before), "emplace_after returned another place");
            break;
        }
        case 5:
            t.erase_after(before);
            m.erase(m.begin() + at);
            break;
        case 6:
            t.pop_front();
            m.erase(m.begin());
            break;
        case 7:
            t.reverse();
            std::reverse(m.begin(), m.end());
            break;
        case 8:
            t.erase_after(before, t.end());
            m.resize(i);
            break;
        case 9: {
            // of the elements of another one, more or fewer of them
            model w = some(c);
            T other;
            put(other, w);
            t.assign(other.begin(), other.end());
            m = std::move(w);
            break;
        }
        case 10: {
            T other(t.begin(), t.end());
            CHECK(same(other, m), "a LinkedList made of the elements has others");
            t = other;
            break;
        }
        default: Kind<E>::change(c, *std::next(before), m[i]);
        }
    }
};

template<typename E, typename C, typename L>
struct Kind<xme::Heap<E, C, L>> {
    using T     = xme::Heap<E, C, L>;
    using model = std::multiset<Model<E>>;
    static model some(Case& c) {
        model m;
        for(u64 n = c.draw(6); n-- > 0;)
            m.insert(Kind<E>::some(c));
        return m;
    }
    static void put(T& t, const model& m) {
        while(!t.empty())
            t.pop();
        for(const auto& x : m) {
            E e{};
            Kind<E>::put(e, x);
            t.push(std::move(e));
        }
    }
    static bool same(const T& t, const model& m) {
        if(t.size() != m.size() || (!m.empty() && !Kind<E>::same(t.front(), *m.rbegin())))
            return false;
        std::vector<const Model<E>*> left;
        for(const auto& x : m)
            left.push_back(&x);
        for(const E& x : t) {
            const auto f = std::find_if(left.begin(), left.end(), [&](const Model<E>* y) { return Kind<E>::same(x, *y); });
            if(f == left.end())
                return false;
            left.erase(f);
        }
        return left.empty();
    }
    static void change(Case& c, T& t, model& m) {
        if(!m.empty() && c.draw(3) == 2) {
            t.pop();
            m.erase(std::prev(m.end()));
            return;
        }
        const Model<E> x = m.empty() || c.draw(4) ? Kind<E>::some(c) : *m.begin();
        E e{};
        Kind<E>::put(e, x);
        m.insert(x);
        switch(c.draw(3)) {
        case 0: t.push(std::move(e)); break;
        case 1: t.push(std::as_const(e)); break;
        default: t.emplace(std::move(e));
        }
    }
};

// Some of different kinds ---------------------------------------------------------------------------------------------

template<typename A, typename B>
struct Kind<xme::Pair<A, B>> {
    using T     = xme::Pair<A, B>;
    using model = std::pair<Model<A>, Model<B>>;
    static model some(Case& c) {
        auto a = Kind<A>::some(c);
        return {std::move(a), Kind<B>::some(c)};
    }
    static void put(T& t, const model& m) {
        Kind<A>::put(t.first, m.first);
        Kind<B>::put(get<1>(t), m.second);
    }
    static bool same(const T& t, const model& m) {
        const auto& [a, b] = t;
        return Kind<A>::same(a, m.first) && Kind<B>::same(b, m.second) && std::addressof(get<0>(t)) == std::addressof(t.first);
    }
    static void change(Case& c, T& t, model& m) {
        switch(c.draw(4)) {
        case 0: {
            T other{t};
            Kind<A>::put(t.first, m.first = Kind<A>::some(c));
            get<0>(other) = std::as_const(t).first;
            t             = std::move(other);
            break;
        }
        case 1: Kind<A>::change(c, get<0>(t), m.first); break;
        case 2: Kind<B>::change(c, t.second, m.second); break;
        default:
            if constexpr(swaps<A> && swaps<B>) {
                T other{};
                put(other, m);
                swap(t, other);
            }
        }
    }
};

template<typename... E>
struct Kind<xme::Tuple<E...>> {
    using T                          = xme::Tuple<E...>;
    using model                      = std::tuple<Model<E>...>;
    static constexpr std::size_t size = sizeof...(E);
    static model some(Case& c) { return model{Kind<E>::some(c)...}; }
    template<typename F>
    static void each(F&& f) {
        [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<size>{});
    }
    template<std::size_t I>
    using K = Kind<std::tuple_element_t<I, T>>;
    static void put(T& t, const model& m) {
        each([&](auto i) { K<i>::put(get<i>(t), std::get<i>(m)); });
    }
    static bool same(const T& t, const model& m) {
        bool ok = true;
        each([&](auto i) { ok = ok && K<i>::same(get<i>(t), std::get<i>(m)); });
        return ok && xme::apply([&](const E&... e) { return std::apply([&](const Model<E>&... x) { return (Kind<E>::same(e, x) && ...); }, m); }, t);
    }
    static void change(Case& c, T& t, model& m) {
        const std::size_t which = c.draw(size + 2);
        if(which == size) {
            // through references to each, put together
            T other{};
            put(other, m = some(c));
            auto refer = [&](auto&... e) { xme::tie(e...) = std::as_const(other); };
            xme::apply(refer, t);
        }
        else if(which == size + 1) {
            if constexpr((std::convertible_to<E&, E> && ...)) {
                auto both = xme::tuple_cat(t, xme::Tuple<int>{4}, t);
                each([&](auto i) {
                    CHECK((K<i>::same(get<i>(both), std::get<i>(m))), "element " << i << " is another when put together");
                    CHECK((K<i>::same(get<i + size + 1>(both), std::get<i>(m))), "element " << i << " is another when put together");
                });
            }
        }
        else
            each([&](auto i) {
                if(i == which)
                    K<i>::change(c, get<i>(t), std::get<i>(m));
            });
    }
};

// Functions -----------------------------------------------------------------------------------------------------------

//! What a Delegate<int(int)> does: with numbers it holds, in some type of the library
struct Function {
    int how = 0;  // 0: nothing
    std::vector<int> held;
    int calls = 0;
    int operator()(int x) const {
        switch(how) {
        case 1: return x * 3;
        case 2: return x + held[0];
        case 8: return x + calls;
        default: return std::accumulate(held.begin(), held.end(), x * 7, [](int a, int b) { return a * 5 + b; }) % 9973;
        }
    }
};
static int thrice(int x) { return x * 3; }
template<typename R>
static int folded(const R& held, int x) {
    int a = x * 7;
    for(const Tr& e : held)
        a = a * 5 + e.get();
    return a % 9973;
}
using TrArray = xme::Array<Tr, el::TrackAlloc<Tr>>;
using TrList  = xme::LinkedList<Tr, el::TrackAlloc<Tr>>;

template<>
struct Kind<xme::Delegate<int(int)>> {
    using T     = xme::Delegate<int(int)>;
    using model = Function;
    static model some(Case& c) {
        model m;
        m.how = static_cast<int>(c.draw(9));
        for(u64 n = 3 + c.draw(3); n-- > 0;)
            m.held.push_back(static_cast<int>(c.draw(100)));
        return m;
    }
    static void put(T& t, const model& m) {
        TrArray held(m.held.begin(), m.held.end());
        switch(m.how) {
        case 0: t = nullptr; break;
        case 1: t = &thrice; break;
        case 2: t = [add = m.held[0]](int x) { return x + add; }; break;
        case 3: t = [held](int x) { return folded(held, x); }; break;
        case 4: t = [held = TrList(held.begin(), held.end())](int x) { return folded(held, x); }; break;
        case 5: t = xme::bind_front([](const TrArray& h, int x) { return folded(h, x); }, held); break;
        case 6: t = xme::bind_back([](int x, const auto& h) { return folded(get<0>(h), x); }, xme::Tuple<TrArray, xme::Pair<int, TrArray>>{held, {3, held}}); break;
        case 7: {
            T inner = [held = xme::Array<xme::Pair<int, Tr>>(held.size(), xme::Pair<int, Tr>{1, Tr(0)}), from = held](int x) mutable {
                for(std::size_t i = 0; i < from.size(); ++i)
                    get<1>(held[i]) = from[i];
                int a = x * 7;
                for(const auto& [n, e] : held)
                    a = a * 5 + n * e.get();
                return a % 9973;
            };
            t = [inner](int x) { return inner(x); };
            break;
        }
        default: t = [calls = m.calls, some = Tr(1)](int x) mutable { return x < 0 ? calls++ : x + calls * some.get(); };
        }
    }
    static bool same(const T& t, const model& m) {
        if(static_cast<bool>(t) != (m.how != 0))
            return false;
        if(!t) {
            try {
                t(1);
                return false;
            }
            catch(const std::bad_function_call&) {
                return true;
            }
        }
        return t(0) == m(0) && t(11) == m(11);
    }
    static void change(Case& c, T& t, model& m) {
        if(m.how == 8) {
            CHECK(t(-1) == m.calls, "a function that counts its calls has another count");
            ++m.calls;
        }
        else if(c.draw(2)) {
            T other(t);
            other.swap(t);
        }
        else
            put(t, m = some(c));
    }
};

// Histories -----------------------------------------------------------------------------------------------------------

template<typename T>
static void history(Case& c) {
    world.reset();
    effective = 0;
    {
        using K = Kind<T>;
        T t[3]{};
        Model<T> m[3];
        for(int i = 0; i < 3; ++i)
            K::put(t[i], m[i] = K::some(c));
        c.begin_loop({4, 10, 25, 60});
        while(c.more()) {
            ++effective;
            const u64 i = c.draw(3), j = c.draw(3);
            const char* what = "a change";
            switch(c.draw(9)) {
            case 0:
                what = "copy assignment";
                t[i] = std::as_const(t[j]), m[i] = copy_of(m[j]);
                break;
            case 1:
                if(i == j)
                    break;
                what = "move assignment";
                t[i] = std::move(t[j]), m[i] = m[j];
                K::put(t[j], m[j] = K::some(c));
                break;
            case 2: {
                what = "copy construction";
                T copy(std::as_const(t[j]));
                CHECK(K::same(copy, m[j]), "a copy is different");
                t[i] = std::move(copy), m[i] = copy_of(m[j]);
                break;
            }
            case 3: {
                what = "move construction";
                T moved(std::move(t[j]));
                CHECK(K::same(moved, m[j]), "what was made by moving is different");
                t[j] = std::move(moved);
                break;
            }
            case 4:
                what = "swap";
                if constexpr(swaps<T> && requires { t[0].swap(t[1]); })
                    t[i].swap(t[j]), std::swap(m[i], m[j]);
                break;
            default: K::change(c, t[i], m[i]);
            }
            world.check();
            LOG(what << " of " << i << (what[0] == 'a' ? "" : " with ") << (what[0] == 'a' ? "" : std::to_string(j)));
            for(int k = 0; k < 3; ++k)
                CHECK(K::same(t[k], m[k]), "after " << what << ", object " << k << " isn't what it should be");
        }
    }
    world.check_empty();
    if(effective > 3)
        c.nontrivial();
}

//! One after another, through a queue
template<typename T, typename Q>
static void queued(Case& c, Q& q, std::size_t room) {
    using K = Kind<T>;
    std::vector<Model<T>> m;
    T last{};
    Model<T> last_m{};
    K::put(last, last_m = K::some(c));
    c.begin_loop({6, 20, 60});
    while(c.more()) {
        ++effective;
        if(m.size() == room || (!m.empty() && c.draw(2))) {
            q.consume([&](T&& x) {
                CHECK(K::same(x, m.front()), "another object came out of the queue");
                if(c.draw(2)) {
                    last   = std::move(x);
                    last_m = m.front();
                }
                else if(c.draw(2))
                    K::change(c, x, m.front());
            });
            m.erase(m.begin());
            CHECK(K::same(last, last_m), "what was moved out of the queue changed");
        }
        else {
            K::change(c, last, last_m);
            m.push_back(last_m);
            T x(last);
            bool ok;
            if(c.draw(2))
                ok = q.emplace(std::move(x));
            else
                ok = q.emplace(std::as_const(x));
            CHECK(ok, "a queue of " << m.size() - 1 << " with room for " << room << " refused another object");
        }
        world.check();
        CHECK(q.read_available() == m.size(), q.read_available() << " in the queue, not " << m.size());
    }
}
template<typename T>
static void queue(Case& c) {
    world.reset();
    effective = 0;
    {
        if(c.draw(2)) {
            xme::SPSCQueue<T, xme::Capacity<4>> q;
            queued<T>(c, q, 3);
        }
        else {
            xme::SPSCQueue<T> q(8);
            queued<T>(c, q, 7);
        }
    }
    world.check_empty();
    if(effective > 4)
        c.nontrivial();
}

//! Copied into memory that holds nothing, between different kinds of containers
template<typename T>
static void uninitialized(Case& c) {
    world.reset();
    {
        using K = Kind<xme::LinkedList<T>>;
        xme::LinkedList<T> from;
        const auto m = K::some(c);
        K::put(from, m);
        std::allocator<T> a;
        const std::size_t n = m.size() + c.draw(3), room = c.draw(2) ? n : c.draw(n + 1);
        T* to               = a.allocate(n + 1);
        auto [in, out]      = xme::ranges::uninitialized_copy_a(from.begin(), from.end(), to, to + room, a);
        const std::size_t copied = std::min(room, m.size());
        CHECK(static_cast<std::size_t>(out - to) == copied, "copied " << out - to << " objects, not " << copied);
        CHECK(in == std::next(from.begin(), static_cast<std::ptrdiff_t>(copied)), "read another number of objects");
        for(std::size_t i = 0; i < copied; ++i)
            CHECK(Kind<T>::same(to[i], m[i]), "copy " << i << " is different");
        CHECK(K::same(from, m), "what was copied changed");
        const xme::ArrayView<T> view(to, copied);
        CHECK(view.size() == copied, "view of another number of objects");
        xme::ranges::destroy_a(view, a);
        a.deallocate(to, n + 1);
    }
    world.check_empty();
    c.nontrivial();
}

template<typename T>
using Arr = xme::Array<T, el::TrackAlloc<T>>;
template<typename T>
using Lst = xme::LinkedList<T, el::TrackAlloc<T>>;
using Fun = xme::Delegate<int(int)>;
using xme::Heap, xme::Pair, xme::Tuple;

SUB_T(array_array, history<Arr<Arr<Tr>>>, 3000, 50000);
SUB_T(array_array_array, history<xme::Array<xme::Array<xme::Array<std::string>>>>, 2000, 30000);
SUB_T(array_list, history<Arr<Lst<Tr>>>, 3000, 50000);
SUB_T(list_array, history<Lst<Arr<std::string>>>, 3000, 50000);
SUB_T(list_list, history<Lst<Lst<Tr>>>, 3000, 50000);
SUB_T(array_pair, (history<Arr<Pair<Arr<Tr>, std::string>>>), 3000, 50000);
SUB_T(array_tuple, (history<Arr<Tuple<int, Arr<int>, Pair<Tr, Lst<int>>>>>), 2500, 40000);
SUB_T(array_delegate, history<Arr<Fun>>, 3000, 50000);
SUB_T(list_delegate, (history<Lst<Pair<Fun, Fun>>>), 2500, 40000);
SUB_T(heap_pair, (history<Heap<Pair<int, std::string>>>), 3000, 50000);
SUB_T(heap_tuple, (history<Heap<Tuple<int, Pair<int, int>, std::string>, Arr<Tuple<int, Pair<int, int>, std::string>>>>), 3000, 50000);
SUB_T(array_heap, (history<Arr<Heap<int>>>), 2500, 40000);
SUB_T(tuple_of_all, (history<Tuple<Arr<int>, Lst<Tr>, Pair<Fun, Heap<int>>, Tuple<Tr, Arr<Fun>>>>), 2500, 40000);
SUB_T(pair_of_containers, (history<Pair<Lst<Pair<int, Arr<Tr>>>, Arr<Lst<std::string>>>>), 2500, 40000);
SUB_T(queue_array, queue<Arr<Tr>>, 3000, 40000);
SUB_T(queue_list, queue<Lst<std::string>>, 3000, 40000);
SUB_T(queue_delegate, queue<Fun>, 3000, 40000);
SUB_T(queue_tuple, (queue<Tuple<Arr<Tr>, Pair<Fun, Lst<int>>>>), 2500, 40000);
SUB_T(uninitialized_array, uninitialized<Arr<Tr>>, 1000, 10000);
SUB_T(uninitialized_list, uninitialized<Lst<Tr>>, 1000, 10000);
SUB_T(uninitialized_tuple, (uninitialized<Tuple<Fun, Pair<Arr<Tr>, int>>>), 1000, 10000);

// Generated histories of operations over three Arrays, with a model of the values they hold.
#pragma once
#include "elements.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <optional>
#include <ranges>
#include <span>
#include <xme/container/array.hpp>

using el::Elem;
using el::world;

enum Checks : unsigned { values = 1, lifetime = 2, capacity_ = 4, faults = 8 };

template<typename T, typename A, unsigned What>
struct ArrayHistory {
    using Arr = xme::Array<T, A>;
    static constexpr bool tracked  = requires(T t) { T::moved_from; };
    static constexpr bool copyable = std::copy_constructible<T> && std::is_copy_assignable_v<T>;
    static constexpr bool ledger   = requires { A::stateful; };
    static constexpr std::size_t max_size = 70;

    Case& c;
    std::optional<Arr> arr[3];
    std::vector<int> model[3];
    int next_value = 1;
    int effective = 0;
    bool interesting = false;
    using u64 = pbt::u64;

    explicit ArrayHistory(Case& cc) : c(cc) { world.reset(); }

    int value() {
        // Small values repeat, so that equal elements occur too
        next_value = (next_value + 1) % 120;
        return next_value;
    }

    A alloc() {
        if constexpr(ledger)
            return A::with(static_cast<int>(c.draw(3)));
        else
            return A();
    }

    std::vector<int> some_values(std::size_t max) {
        std::vector<int> r(c.draw(max + 1));
        for(int& x : r)
            x = value();
        return r;
    }

    static std::string show(const std::vector<int>& v) {
        std::string s = "[";
        for(std::size_t i = 0; i < v.size(); ++i)
            s += (i ? " " : "") + std::to_string(v[i]);
        return s + "]";
    }

    static std::vector<T> elements(const std::vector<int>& v) {
        std::vector<T> r;
        r.reserve(v.size());
        for(int x : v)
            r.push_back(Elem<T>::make(x));
        return r;
    }

    // ---- what is observed ------------------------------------------------------------------

    void check_values(int k) {
        Arr& a                 = *arr[k];
        const Arr& ca          = a;
        const std::vector<int>& m = model[k];
        CHECK(a.size() == m.size(), "array " << k << " has " << a.size() << " elements, not " << m.size());
        CHECK(ca.size() == m.size());
        CHECK(a.empty() == m.empty(), "array " << k);
        CHECK(ca.empty() == m.empty(), "array " << k);
        CHECK(a.end() - a.begin() == static_cast<std::ptrdiff_t>(m.size()));
        CHECK(ca.end() - ca.begin() == static_cast<std::ptrdiff_t>(m.size()));
        std::size_t i = 0;
        for(auto& x : a) {
            CHECK(i < m.size(), "iteration goes past the end");
            CHECK(Elem<T>::read(x) == m[i], "array " << k << ", element " << i << " is " << Elem<T>::read(x)
                                                     << ", not " << m[i] << "; expected " << show(m));
            CHECK(std::addressof(x) == a.data() + i);
            CHECK(std::addressof(a[i]) == std::addressof(x), "index " << i);
            CHECK(std::addressof(ca[i]) == std::addressof(x), "index " << i);
            ++i;
        }
        CHECK(i == m.size(), "iteration ends early");
        i = 0;
        for(const auto& x : ca) {
            CHECK(i < m.size(), "const iteration goes past the end");
            CHECK(std::addressof(x) == ca.data() + i);
            ++i;
        }
        CHECK(i == m.size(), "const iteration ends early");
        if(!m.empty()) {
            CHECK(std::addressof(a.front()) == std::addressof(a[0]));
            CHECK(std::addressof(ca.front()) == std::addressof(a[0]));
            CHECK(std::addressof(a.back()) == std::addressof(a[m.size() - 1]));
            CHECK(std::addressof(ca.back()) == std::addressof(a[m.size() - 1]));
        }
    }

    void check_life() {
        world.check();
        if constexpr(tracked) {
            std::size_t total = 0;
            for(auto& a : arr)
                if(a) {
                    const Arr& ca = *a;
                    total += ca.size();
                    for(std::size_t i = 0; i < ca.size(); ++i)
                        CHECK(world.live.count(ca.data() + i), "element " << i << " isn't alive");
                }
            CHECK(world.live.size() == total,
                  world.live.size() << " elements are alive, the arrays hold " << total);
        }
        if constexpr(ledger) {
            std::size_t nblocks = 0;
            for(auto& a : arr)
                if(a) {
                    CHECK(a->size() <= a->capacity());
                    const Arr& ca = *a;
                    if(auto it = world.blocks.find(ca.data()); it != world.blocks.end()) {
                        ++nblocks;
                        CHECK(it->second.n == a->capacity(), "capacity is " << a->capacity() << ", the memory is for " << it->second.n);
                    }
                    else
                        CHECK(a->size() == 0, "the elements are not in memory of the allocator");
                }
            CHECK(world.blocks.size() == nblocks,
                  world.blocks.size() << " blocks of memory exist, the arrays use " << nblocks);
        }
    }

    void check_all() {
        for(int k = 0; k < 3; ++k) {
            if(!arr[k])
                continue;
            CHECK(arr[k]->size() <= arr[k]->capacity(), "array " << k);
            if constexpr(What & values)
                check_values(k);
            if constexpr(What & lifetime) {
                // read every element: each must be alive and whole
                for(std::size_t i = 0; i < arr[k]->size(); ++i)
                    (void)Elem<T>::read((*arr[k])[i]);
            }
        }
        if constexpr(What & lifetime)
            check_life();
    }

    //! After a fault: what the array holds becomes the model
    void resync(int k) {
        world.disarm();
        model[k].clear();
        for(std::size_t i = 0; i < arr[k]->size() && i < 1000; ++i)
            model[k].push_back(Elem<T>::read((*arr[k])[i]));
    }

    // ---- building arrays -------------------------------------------------------------------

    //! Builds a new Array from generated values. Leaves the expected values in m.
    Arr build(std::vector<int>& m) {
        m.clear();
        if constexpr(copyable) {
            switch(c.draw(9)) {
            case 0: {
                LOG("  new Array()");
                return c.chance(1, 2) ? Arr() : Arr(alloc());
            }
            case 1: {
                const std::size_t n = c.draw(12);
                LOG("  new Array(" << n << ")");
                Arr a(n, alloc());
                CHECK(a.capacity() >= n && a.empty(), "capacity " << a.capacity() << ", size " << a.size());
                return a;
            }
            case 2: {
                const std::size_t n = c.draw(12);
                const int v = value();
                m.assign(n, v);
                LOG("  new Array(" << n << ", " << v << ")");
                return Arr(n, Elem<T>::make(v), alloc());
            }
            case 3: {
                m = some_values(3);
                LOG("  new Array{" << show(m) << "}");
                switch(m.size()) {
                case 0: return Arr(std::initializer_list<T>{}, alloc());
                case 1: return Arr({Elem<T>::make(m[0])}, alloc());
                case 2: return Arr({Elem<T>::make(m[0]), Elem<T>::make(m[1])}, alloc());
                default:
                    return Arr({Elem<T>::make(m[0]), Elem<T>::make(m[1]), Elem<T>::make(m[2])}, alloc());
                }
            }
            case 4: {
                m = some_values(14);
                LOG("  new Array(iterators of a list) " << show(m));
                auto e = elements(m);
                std::list<T> l(e.begin(), e.end());
                const A al = alloc();
                Arr a(l.begin(), l.end(), al);
                el::kept(l, m);
                return a;
            }
            case 5: {
                m = some_values(14);
                LOG("  new Array(range) " << show(m));
                auto e = elements(m);
                const u64 how = c.draw(4);
                if(how == 0) {
                    Arr a(e, alloc());
                    el::kept(e, m);
                    return a;
                }
                if(how > 1) {
                    std::optional<Arr> r;
                    el::temporary(c.draw(el::temporaries), m, e, [&](auto&& rg) { r.emplace(std::forward<decltype(rg)>(rg), alloc()); });
                    return std::move(*r);
                }
                std::forward_list<T> l(e.begin(), e.end());
                Arr a(l, alloc());
                el::kept(l, m);
                return a;
            }
            case 6: {
                m = some_values(14);
                LOG("  new Array(iterator, sentinel) " << show(m));
                auto e = elements(m);
                Arr a(std::counted_iterator(e.begin(), static_cast<std::ptrdiff_t>(e.size())), std::default_sentinel,
                      alloc());
                el::kept(e, m);
                return a;
            }
            case 7: {
                const int j = static_cast<int>(c.draw(3));
                if(!arr[j])
                    return Arr();
                m = model[j];
                LOG("  new Array(copy of " << j << ")");
                return Arr(std::as_const(*arr[j]));
            }
            default: {
                m = some_values(5);
                LOG("  new Array(range of another Array's elements) " << show(m));
                auto e = elements(m);
                xme::Array<T> other(e.begin(), e.end());
                Arr a(other.begin(), other.end(), alloc());
                el::kept(other, m);
                return a;
            }
            }
        }
        else {
            const std::size_t n = c.draw(12);
            LOG("  new Array(" << n << ")");
            if(c.chance(1, 3))
                return Arr(alloc());
            return Arr(n, alloc());
        }
    }

    // ---- operations ------------------------------------------------------------------------

    void at(std::size_t pos, std::size_t size) {
        if(pos < size)
            interesting = true;
    }

    template<typename It>
    void designates(Arr& a, const It& it, std::size_t pos, const char* what) {
        if constexpr(What & values) {
            CHECK(it == a.begin() + static_cast<std::ptrdiff_t>(pos), what << " returned the position "
                    << (it - a.begin()) << ", not " << pos);
        }
    }

    typename Arr::const_iterator position(Arr& a, std::size_t i) {
        return a.begin() + static_cast<std::ptrdiff_t>(i);
    }

    //! Appends or inserts the values of a range given in one of many forms
    void add_range(Arr& a, std::vector<int>& m, std::size_t pos, bool append) {
        auto vs         = some_values(c.chance(1, 8) ? 30 : 6);
        const u64 form = c.draw(copyable ? 9 + el::temporaries : 2);
        LOG("  " << (append ? "push_back" : "insert") << " range (form " << form << ") at " << pos << " "
                 << show(vs));
        typename Arr::iterator r = a.begin();
        auto both = [&](auto first, auto last) {
            if(append)
                a.push_back(first, last);
            else
                r = a.insert(position(a, pos), first, last);
        };
        auto range = [&](auto&& rg) {
            if(append)
                a.push_back(std::forward<decltype(rg)>(rg));
            else
                r = a.insert(position(a, pos), std::forward<decltype(rg)>(rg));
        };
        if constexpr(copyable) {
            auto e = elements(vs);
            switch(form) {
            case 0: both(e.begin(), e.end()); break;
            case 1: {
                std::size_t p = 0;
                both(el::SinglePass<T>{&vs, &p}, std::default_sentinel);
                CHECK(p == vs.size(), "only " << p << " values of the range were read");
                break;
            }
            case 2: range(e); break;
            case 3: range(std::as_const(e)); break;
            case 4: {
                std::list<T> l(e.begin(), e.end());
                both(l.begin(), l.end());
                el::kept(l, vs);
                break;
            }
            case 5: {
                std::forward_list<T> l(e.begin(), e.end());
                range(l);
                el::kept(l, vs);
                break;
            }
            case 6:
                both(std::counted_iterator(e.data(), static_cast<std::ptrdiff_t>(e.size())),
                     std::default_sentinel);
                break;
            case 7: both(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); break;
            case 8: {
                xme::Array<T> l(e.begin(), e.end());
                range(l);
                el::kept(l, vs);
                break;
            }
            default: el::temporary(form - 9, vs, e, range);
            }
            if(form != 7)
                el::kept(e, vs);
        }
        else {
            if(form == 0) {
                auto e = elements(vs);
                both(std::make_move_iterator(e.begin()), std::make_move_iterator(e.end()));
            }
            else {
                std::size_t p = 0;
                both(el::SinglePass<T>{&vs, &p}, std::default_sentinel);
                CHECK(p == vs.size(), "only " << p << " values of the range were read");
            }
        }
        m.insert(m.begin() + static_cast<std::ptrdiff_t>(pos), vs.begin(), vs.end());
        if(!append)
            designates(a, r, pos, "insert");
        if(!vs.empty())
            at(pos, m.size() - vs.size());
    }

    //! One operation on array k. Returns what it was.
    //! The model is only written once the operation is over.
    void step(int k) {
        Arr& a              = *arr[k];
        std::vector<int>& m = model[k];
        std::size_t n = m.size();
        u64 op = c.draw(26);
        if(n >= max_size && (op < 12))
            op = 12 + op % 4;
        ++effective;
        const bool full = a.size() == a.capacity();
        switch(op) {
        case 0: {
            const int v = value();
            LOG(k << ": push_back(" << v << ")");
            a.push_back(Elem<T>::make(v));
            m.push_back(v);
            interesting = interesting || (full && n);
            break;
        }
        case 1: {
            const int v = value();
            LOG(k << ": emplace_back(" << v << ")");
            T& r = a.emplace_back(Elem<T>::make(v));
            m.push_back(v);
            if constexpr(What & values)
                CHECK(std::addressof(r) == a.data() + n, "emplace_back returned another element");
            interesting = interesting || (full && n);
            break;
        }
        case 2: {
            const int v = value();
            if constexpr(copyable) {
                LOG(k << ": push_back(const " << v << "&)");
                const T x = Elem<T>::make(v);
                a.push_back(x);
                if constexpr(What & values)
                    CHECK(Elem<T>::read(x) == v, "push_back changed its argument");
            }
            else
                a.push_back(Elem<T>::make(v));
            m.push_back(v);
            break;
        }
        case 3:
        case 4:
        case 5: {
            const int v         = value();
            const std::size_t p = c.draw(n + 1);
            typename Arr::iterator r = a.begin();
            if(op == 4 && copyable) {
                if constexpr(copyable) {
                    LOG(k << ": insert(" << p << ", const " << v << "&)");
                    const T x = Elem<T>::make(v);
                    r         = a.insert(position(a, p), x);
                    if constexpr(What & values)
                        CHECK(Elem<T>::read(x) == v, "insert changed its argument");
                }
            }
            else {
                LOG(k << ": insert(" << p << ", " << v << ")");
                r = a.insert(position(a, p), Elem<T>::make(v));
            }
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), v);
            designates(a, r, p, "insert");
            at(p, n);
            break;
        }
        case 6: {
            LOG(k << ": push_back of a range");
            add_range(a, m, n, true);
            break;
        }
        case 7:
        case 8: {
            LOG(k << ": insert of a range");
            add_range(a, m, c.draw(n + 1), false);
            break;
        }
        case 9: {
            // an element of the same array
            if constexpr(copyable) {
                if(n == 0)
                    break;
                const std::size_t i = c.draw(n);
                const int v         = m[i];
                LOG(k << ": push_back(element " << i << ")");
                if(c.chance(1, 2))
                    a.push_back(a[i]);
                else
                    a.emplace_back(std::as_const(a)[i]);
                m.push_back(v);
                interesting = true;
            }
            break;
        }
        case 10: {
            if constexpr(copyable) {
                if(n == 0)
                    break;
                const std::size_t i = c.draw(n), p = c.draw(n + 1);
                const int v = m[i];
                LOG(k << ": insert(" << p << ", element " << i << ")");
                auto r = c.chance(1, 2) ? a.insert(position(a, p), a[i])
                                        : a.insert(position(a, p), std::as_const(a)[i]);
                m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), v);
                designates(a, r, p, "insert");
                interesting = true;
            }
            break;
        }
        case 11: {
            if(n == 0)
                break;
            const std::size_t i = c.draw(n);
            const int v         = value();
            LOG(k << ": [" << i << "] = " << v);
            a[static_cast<std::ptrdiff_t>(i)] = Elem<T>::make(v);
            m[i] = v;
            break;
        }
        case 12: {
            if(n == 0)
                break;
            const std::size_t p = c.draw(n);
            LOG(k << ": erase(" << p << ")");
            auto r = a.erase(position(a, p));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(p));
            designates(a, r, p, "erase");
            at(p + 1, n);
            break;
        }
        case 13: {
            const std::size_t p = c.draw(n + 1), q = p + c.draw(n - p + 1);
            LOG(k << ": erase(" << p << ", " << q << ")");
            auto r = a.erase(position(a, p), position(a, q));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(p), m.begin() + static_cast<std::ptrdiff_t>(q));
            designates(a, r, p, "erase");
            at(q, n);
            break;
        }
        case 14: {
            if(n == 0)
                break;
            LOG(k << ": pop_back()");
            a.pop_back();
            m.pop_back();
            break;
        }
        case 15: {
            if(!c.chance(1, 3))
                break;
            LOG(k << ": clear()");
            a.clear();
            m.clear();
            break;
        }
        case 16:
        case 17: {
            const std::size_t x = c.draw(2 * n + 8);
            LOG(k << ": reserve(" << x << ")");
            a.reserve(x);
            break;
        }
        case 18:
        case 19: {
            const std::size_t x = c.draw(n + n / 2 + 6);
            LOG(k << ": resize(" << x << ")");
            a.resize(x);
            if(x < m.size())
                m.resize(x);
            if constexpr(What & values)
                CHECK(a.capacity() >= x);
            interesting = interesting || n;
            break;
        }
        case 20: {
            if constexpr(copyable) {
                const int j = static_cast<int>(c.draw(3));
                if(!arr[j])
                    break;
                LOG(k << ": = copy of " << j);
                Arr& r = (a = std::as_const(*arr[j]));
                if(j != k)
                    m = model[j];
                CHECK(&r == &a, "operator= returned another Array");
            }
            break;
        }
        case 21: {
            const int j = static_cast<int>(c.draw(3));
            if(!arr[j] || j == k)
                break;
            LOG(k << ": = move of " << j);
            Arr& r = (a = std::move(*arr[j]));
            m      = model[j];
            CHECK(&r == &a, "operator= returned another Array");
            // a moved-from Array is usable, its value is anything
            arr[j]->clear();
            model[j].clear();
            break;
        }
        case 22: {
            const int j = static_cast<int>(c.draw(3));
            if(!arr[j])
                break;
            LOG(k << ": swap with " << j);
            a.swap(*arr[j]);
            if(j != k)
                std::swap(m, model[j]);
            break;
        }
        case 23: {
            if constexpr(copyable && !(ledger && A::is_always_equal::value == false)) {
                auto vs = some_values(2);
                LOG(k << ": = {" << show(vs) << "}");
                if(vs.size() == 0)
                    a = std::initializer_list<T>{};
                else if(vs.size() == 1)
                    a = {Elem<T>::make(vs[0])};
                else
                    a = {Elem<T>::make(vs[0]), Elem<T>::make(vs[1])};
                m = vs;
            }
            break;
        }
        case 24: {
            LOG(k << ": destroyed and built again");
            std::vector<int> nm;
            Arr fresh_one = build(nm);
            const int id  = 0;
            (void)id;
            arr[k].emplace(std::move(fresh_one));
            m = nm;
            break;
        }
        default: {
            const int j = static_cast<int>(c.draw(3));
            if(!arr[j] || j == k)
                break;
            LOG(k << ": built by moving " << j);
            auto moved = model[j];
            arr[k].emplace(std::move(*arr[j]));
            m = moved;
            arr[j]->clear();
            model[j].clear();
            break;
        }
        }
        LOG("     -> " << show(model[k]) << (arr[k] ? "" : " (none)"));
    }

    void start() {
        arr[0].emplace();
        arr[1].emplace(alloc());
        arr[2].emplace();
    }

    void run() {
        start();
        c.begin_loop();
        while(c.more()) {
            step(static_cast<int>(c.draw(3)));
            check_all();
        }
        for(auto& a : arr)
            a.reset();
        if constexpr(What & lifetime)
            world.check_empty();
        if(effective >= 4 && interesting)
            c.nontrivial();
    }
};

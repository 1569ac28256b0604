// Generated histories of operations over three LinkedLists, with a model of what they hold.
#pragma once
#include "elements.hpp"
#include <forward_list>
#include <list>
#include <optional>
#include <vector>
#include <xme/container/linked_list.hpp>

using el::Elem;
using el::world;

enum Checks : unsigned { values = 1, lifetime = 2 };

template<typename T, typename A, unsigned What>
struct ListHistory {
    using List = xme::LinkedList<T, A>;
    using It   = typename List::iterator;
    using CIt  = typename List::const_iterator;
    static constexpr bool tracked  = requires(T t) { T::moved_from; };
    static constexpr bool copyable = std::copy_constructible<T> && std::is_copy_assignable_v<T>;

    struct Node {
        int value;
        const T* address;  // null: not seen since it was created
        std::optional<It> it;
    };

    Case& c;
    std::optional<List> list[3];
    std::vector<Node> model[3];
    int next_value = 0, effective = 0;
    bool interesting = false;

    explicit ListHistory(Case& cc) : c(cc) { world.reset(); }

    int value() { return next_value = next_value % 120 + 1; }
    std::vector<int> some_values(std::size_t max) {
        std::vector<int> r(c.draw(max + 1));
        for(int& x : r)
            x = value();
        return r;
    }
    static std::string show(const std::vector<int>& v) {
        std::string s = "[";
        for(std::size_t i = 0; i < v.size(); ++i)
            s += (i ? " " : "") + std::to_string(v[i]);
        return s + "]";
    }
    static std::string show(const std::vector<Node>& v) {
        std::vector<int> x;
        for(auto& n : v)
            x.push_back(n.value);
        return show(x);
    }
    static std::vector<Node> nodes(const std::vector<int>& v) {
        std::vector<Node> r;
        for(int x : v)
            r.push_back({x, nullptr, {}});
        return r;
    }
    static std::vector<T> elements(const std::vector<int>& v) {
        std::vector<T> r;
        r.reserve(v.size());
        for(int x : v)
            r.push_back(Elem<T>::make(x));
        return r;
    }

    void check_values(int k) {
        List& l        = *list[k];
        const List& cl = l;
        auto& m        = model[k];
        CHECK(l.empty() == m.empty() && cl.empty() == m.empty(), "list " << k << " is " << (l.empty() ? "" : "not ") << "empty");
        std::size_t i = 0;
        auto ct       = cl.begin();
        for(auto it = l.begin(); it != l.end(); ++it, ++ct, ++i) {
            CHECK(i < m.size(), "list " << k << " has more than " << m.size() << " elements");
            CHECK(Elem<T>::read(*it) == m[i].value, "list " << k << ", element " << i << " is " << Elem<T>::read(*it) << ", not "
                                                             << m[i].value << "; expected " << show(m));
            CHECK(ct != cl.end() && std::addressof(*ct) == std::addressof(*it), "const iteration differs");
            CHECK(it.operator->() == std::addressof(*it) && ct.operator->() == std::addressof(*ct));
            const auto fit = it;  // an iterator that cannot itself be changed designates all the same
            const auto fct = ct;
            CHECK(fit.operator->() == std::addressof(*fit) && std::addressof(*fit) == std::addressof(*it) && fct.operator->() == std::addressof(*fct)
                    && fit == it && fct == ct && fct == fit && !(fit != it),
                  "a const iterator object");
            if(m[i].address) {
                CHECK(m[i].address == std::addressof(*it), "element " << i << " is no longer where it was");
                CHECK(*m[i].it == it && std::addressof(**m[i].it) == m[i].address, "an iterator to element " << i << " no longer designates it");
            }
            m[i].address = std::addressof(*it);
            m[i].it      = it;
        }
        CHECK(i == m.size(), "list " << k << " has " << i << " elements, not " << m.size());
        CHECK(ct == cl.end(), "const iteration differs");
        i = 0;
        for(const auto& x : cl) {
            CHECK(i < m.size() && std::addressof(x) == m[i].address, "iteration");
            ++i;
        }
        CHECK(i == m.size());
        if(!m.empty()) {
            CHECK(std::addressof(l.front()) == m[0].address && std::addressof(cl.front()) == m[0].address, "front");
            auto b = l.before_begin();
            CHECK(++b == l.begin(), "before_begin");
            auto cb = cl.cbefore_begin();
            CHECK(++cb == cl.begin(), "cbefore_begin");
            auto pb = cl.before_begin();
            CHECK(pb++ == cl.cbefore_begin() && pb == cl.begin(), "before_begin");
        }
    }

    void check_life() {
        world.check();
        std::size_t total = 0;
        for(auto& l : list)
            if(l)
                for(auto& x : *l) {
                    ++total;
                    CHECK(total < 100000, "iteration does not end");
                    if constexpr(tracked)
                        CHECK(world.live.count(std::addressof(x)), "an element of a list isn't alive");
                    (void)Elem<T>::read(x);
                }
        if constexpr(tracked)
            CHECK(world.live.size() == total, world.live.size() << " elements are alive, the lists hold " << total);
        if constexpr(requires { A::stateful; })
            CHECK(world.blocks.size() == total, world.blocks.size() << " nodes exist, the lists hold " << total << " elements");
        world.check();
    }

    void check_all() {
        if constexpr(What & values)
            for(int k = 0; k < 3; ++k)
                if(list[k])
                    check_values(k);
        if constexpr(What & lifetime)
            check_life();
    }

    void resync(int k) {
        world.disarm();
        model[k].clear();
        for(auto& x : *list[k]) {
            model[k].push_back({Elem<T>::read(x), nullptr, {}});
            CHECK(model[k].size() < 100000, "iteration does not end");
        }
    }

    //! The position of element i - 1, before_begin for 0
    CIt before(int k, std::size_t i) {
        CIt it = list[k]->before_begin();
        for(; i > 0; --i)
            ++it;
        return it;
    }
    It nth(int k, std::size_t i) {
        It it = list[k]->begin();
        for(; i > 0; --i)
            ++it;
        return it;
    }

    //! it must designate element i - 1 of list k (before_begin for 0)
    void is_before(int k, It it, std::size_t i, const char* what) {
        if constexpr(What & values) {
            It x = list[k]->before_begin();
            for(std::size_t j = 0; j < i; ++j)
                ++x;
            CHECK(it == x, what << " did not return the position of element " << static_cast<long>(i) - 1);
        }
    }

    void add_range(int k, std::size_t i) {
        auto vs = some_values(6);
        const u64 form = c.draw(copyable ? 6 + el::temporaries : 2);
        LOG(k << ": insert_after(" << static_cast<long>(i) - 1 << ") of a range (form " << form << ") " << show(vs));
        List& l = *list[k];
        It r;
        if constexpr(copyable) {
            auto e = elements(vs);
            std::size_t p = 0;
            switch(form) {
            case 0: r = l.insert_after(before(k, i), e.begin(), e.end()); break;
            case 1: r = l.insert_after(before(k, i), e); break;
            case 2: r = l.insert_after(before(k, i), el::SinglePass<T>{&vs, &p}, std::default_sentinel); CHECK(p == vs.size()); break;
            case 3: {
                std::forward_list<T> f(e.begin(), e.end());
                r = l.insert_after(before(k, i), f);
                el::kept(f, vs);
                break;
            }
            case 4: r = l.insert_after(before(k, i), std::make_move_iterator(e.begin()), std::make_move_iterator(e.end())); break;
            case 5: {
                List o(e);
                r = l.insert_after(before(k, i), o.begin(), o.end());
                el::kept(o, vs);
                break;
            }
            default: el::temporary(form - 6, vs, e, [&](auto&& rg) { r = l.insert_after(before(k, i), std::forward<decltype(rg)>(rg)); });
            }
            if(form != 4)
                el::kept(e, vs);
        }
        else {
            std::size_t p = 0;
            if(form == 0)
                r = l.insert_after(before(k, i), el::SinglePass<T>{&vs, &p}, std::default_sentinel);
            else {
                auto e = elements(vs);
                r = l.insert_after(before(k, i), std::make_move_iterator(e.begin()), std::make_move_iterator(e.end()));
            }
        }
        auto add = nodes(vs);
        model[k].insert(model[k].begin() + static_cast<std::ptrdiff_t>(i), add.begin(), add.end());
        is_before(k, r, i + vs.size(), "insert_after");
        interesting = interesting || (i > 0 && !vs.empty());
    }

    void build(int k) {
        auto vs = some_values(8);
        list[k].reset();
        model[k].clear();
        if constexpr(copyable) {
            const u64 how = c.draw(12);
            LOG(k << ": built anew (way " << how << ") " << show(vs));
            auto e = elements(vs);
            switch(how) {
            case 0: list[k].emplace(); vs.clear(); break;
            case 1: list[k].emplace(vs.size()); for(int& x : vs) x = Elem<T>::read(T{}); break;
            case 2: {
                const int v = value();
                list[k].emplace(vs.size(), Elem<T>::make(v));
                for(int& x : vs) x = v;
                break;
            }
            case 3: list[k].emplace(e.begin(), e.end()); el::kept(e, vs); break;
            case 4: list[k].emplace(e); el::kept(e, vs); break;
            case 5: {
                vs.resize(3, 7);
                list[k].emplace(std::initializer_list<T>{Elem<T>::make(vs[0]), Elem<T>::make(vs[1]), Elem<T>::make(vs[2])});
                break;
            }
            case 6: {
                std::size_t p = 0;
                list[k].emplace(el::SinglePass<T>{&vs, &p}, std::default_sentinel);
                CHECK(p == vs.size());
                break;
            }
            case 8:
            case 9: el::temporary(c.draw(el::temporaries), vs, e, [&](auto&& rg) { list[k].emplace(std::forward<decltype(rg)>(rg)); }); break;
            case 7: {
                std::list<T> s(e.begin(), e.end());
                list[k].emplace(s);
                el::kept(s, vs);
                break;
            }
            default: {
                const int j = static_cast<int>(c.draw(3));
                vs.clear();
                if(!list[j]) {
                    list[k].emplace();
                    break;
                }
                for(auto& n : model[j])
                    vs.push_back(n.value);
                LOG("  copy of " << j);
                list[k].emplace(std::as_const(*list[j]));
            }
            }
            model[k] = nodes(vs);
        }
        else {
            LOG(k << ": built anew");
            list[k].emplace();
        }
    }

    void step(int k) {
        List& l = *list[k];
        auto& m = model[k];
        const std::size_t n = m.size();
        u64 op = c.draw(22);
        if(n > 50 && op < 9)
            op = 9 + op % 4;
        ++effective;
        switch(op) {
        case 0: {
            const int v = value();
            LOG(k << ": push_front(" << v << ")");
            l.push_front(Elem<T>::make(v));
            m.insert(m.begin(), Node{v, nullptr, {}});
            break;
        }
        case 1: {
            const int v = value();
            if constexpr(copyable) {
                LOG(k << ": push_front(const " << v << "&)");
                const T x = Elem<T>::make(v);
                l.push_front(x);
            }
            else
                l.push_front(Elem<T>::make(v));
            m.insert(m.begin(), Node{v, nullptr, {}});
            break;
        }
        case 2: {
            const int v = value();
            LOG(k << ": emplace_front(" << v << ")");
            T& r = l.emplace_front(Elem<T>::make(v));
            m.insert(m.begin(), Node{v, nullptr, {}});
            if constexpr(What & values)
                CHECK(std::addressof(r) == std::addressof(*l.begin()), "emplace_front returned another element");
            break;
        }
        case 3:
        case 4: {
            const int v = value();
            const std::size_t i = c.draw(n + 1);
            LOG(k << ": insert_after(" << static_cast<long>(i) - 1 << ", " << v << ")");
            It r;
            if constexpr(copyable) {
                const T x = Elem<T>::make(v);
                r = op == 3 ? l.insert_after(before(k, i), x) : l.insert_after(before(k, i), Elem<T>::make(v));
            }
            else
                r = l.insert_after(before(k, i), Elem<T>::make(v));
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), Node{v, nullptr, {}});
            is_before(k, r, i + 1, "insert_after");
            interesting = interesting || i > 0;
            break;
        }
        case 5: {
            const int v = value();
            const std::size_t i = c.draw(n + 1);
            LOG(k << ": emplace_after(" << static_cast<long>(i) - 1 << ", " << v << ")");
            It r = l.emplace_after(before(k, i), Elem<T>::make(v));
            m.insert(m.begin() + static_cast<std::ptrdiff_t>(i), Node{v, nullptr, {}});
            is_before(k, r, i + 1, "emplace_after");
            interesting = interesting || i > 0;
            break;
        }
        case 6:
        case 7: add_range(k, c.draw(n + 1)); break;
        case 8: {
            if constexpr(copyable) {
                if(n == 0)
                    break;
                const std::size_t i = c.draw(n), p = c.draw(n + 1);
                LOG(k << ": insert_after(" << static_cast<long>(p) - 1 << ", element " << i << ")");
                It r = l.insert_after(before(k, p), *nth(k, i));
                m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), Node{m[i].value, nullptr, {}});
                is_before(k, r, p + 1, "insert_after");
            }
            break;
        }
        case 9: {
            if(n == 0)
                break;
            LOG(k << ": pop_front()");
            l.pop_front();
            m.erase(m.begin());
            break;
        }
        case 10: {
            if(n == 0)
                break;
            const std::size_t i = c.draw(n);
            LOG(k << ": erase_after(" << static_cast<long>(i) - 1 << ")");
            l.erase_after(before(k, i));
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            interesting = interesting || i > 0;
            break;
        }
        case 11: {
            const std::size_t i = c.draw(n + 1), j = i + c.draw(n - i + 1);
            LOG(k << ": erase_after(" << static_cast<long>(i) - 1 << ", " << j << ")");
            CIt last = nth(k, j);
            l.erase_after(before(k, i), last);
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i), m.begin() + static_cast<std::ptrdiff_t>(j));
            interesting = interesting || (i > 0 && j > i);
            break;
        }
        case 12: {
            if(!c.chance(1, 3))
                break;
            LOG(k << ": clear()");
            l.clear();
            m.clear();
            break;
        }
        case 13: {
            LOG(k << ": reverse()");
            l.reverse();
            std::reverse(m.begin(), m.end());
            interesting = interesting || n > 2;
            break;
        }
        case 14: {
            if constexpr(copyable) {
                auto vs = some_values(8);
                const u64 form = c.draw(6 + el::temporaries);
                LOG(k << ": assign (form " << form << ") " << show(vs));
                auto e = elements(vs);
                std::size_t p = 0;
                switch(form) {
                case 0: l.assign(e.begin(), e.end()); el::kept(e, vs); break;
                case 1: l.assign(e); el::kept(e, vs); break;
                case 2: l.assign(el::SinglePass<T>{&vs, &p}, std::default_sentinel); CHECK(p == vs.size()); break;
                case 3:
                    vs.resize(2, 5);
                    l.assign({Elem<T>::make(vs[0]), Elem<T>::make(vs[1])});
                    break;
                case 4:
                    vs.resize(3, 6);
                    l = {Elem<T>::make(vs[0]), Elem<T>::make(vs[1]), Elem<T>::make(vs[2])};
                    break;
                case 5: {
                    std::forward_list<T> s(e.begin(), e.end());
                    l.assign(s);
                    el::kept(s, vs);
                    break;
                }
                default: el::temporary(form - 6, vs, e, [&](auto&& rg) { l.assign(std::forward<decltype(rg)>(rg)); });
                }
                m = nodes(vs);
            }
            break;
        }
        case 15: {
            if constexpr(copyable) {
                const int j = static_cast<int>(c.draw(3));
                LOG(k << ": = copy of " << j);
                List& r = (l = std::as_const(*list[j]));
                CHECK(&r == &l, "operator= returned another list");
                if(j != k) {
                    std::vector<int> vs;
                    for(auto& x : model[j])
                        vs.push_back(x.value);
                    m = nodes(vs);
                }
            }
            break;
        }
        case 16: {
            const int j = static_cast<int>(c.draw(3));
            if(j == k)
                break;
            LOG(k << ": = move of " << j);
            const u64 ops = world.ops(), dead = world.dead, allocs = world.allocs;
            List& r = (l = std::move(*list[j]));
            CHECK(&r == &l, "operator= returned another list");
            if constexpr(What & values) {
                CHECK(world.ops() - ops == world.dead - dead && world.allocs == allocs, "a move created or copied elements");
                CHECK(!tracked || world.dead - dead <= n, "a move destroyed elements");
            }
            m = model[j];
            list[j]->clear();
            model[j].clear();
            break;
        }
        case 17: {
            const int j = static_cast<int>(c.draw(3));
            if(j == k)
                break;
            LOG(k << ": built by moving " << j);
            list[k].reset();
            m = model[j];
            const u64 ops = world.ops(), allocs = world.allocs;
            list[k].emplace(std::move(*list[j]));
            if constexpr(What & values)
                CHECK(world.ops() == ops && world.allocs == allocs, "a move touched the elements");
            list[j]->clear();
            model[j].clear();
            break;
        }
        case 18: build(k); break;
        case 19: {
            if(n == 0)
                break;
            const std::size_t i = c.draw(n);
            const int v = value();
            LOG(k << ": element " << i << " = " << v);
            *nth(k, i) = Elem<T>::make(v);
            m[i].value = v;
            break;
        }
        case 20: {
            if(n == 0)
                break;
            const int v = value();
            LOG(k << ": front() = " << v);
            l.front() = Elem<T>::make(v);
            m[0].value = v;
            break;
        }
        default: {
            // walks with postfix increments
            std::size_t i = 0;
            for(auto it = l.begin(); it != l.end(); ++i) {
                auto old = it++;
                if constexpr(What & values)
                    CHECK(i < n && Elem<T>::read(*old) == m[i].value, "it++ at " << i);
            }
        }
        }
        LOG("     -> " << show(model[k]));
    }

    void start() {
        for(auto& l : list)
            l.emplace();
    }

    void run() {
        start();
        c.begin_loop();
        while(c.more()) {
            step(static_cast<int>(c.draw(3)));
            check_all();
        }
        for(auto& l : list)
            l.reset();
        if constexpr(What & lifetime)
            world.check_empty();
        if(effective >= 4 && interesting)
            c.nontrivial();
    }
};

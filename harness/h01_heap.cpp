// H01: Heap against a multiset
#include "elements.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <vector>
#include <xme/container/heap.hpp>

using el::Elem;
using el::world;

struct Item {
    int key, tag;
    friend bool operator==(const Item&, const Item&) = default;
    friend auto operator<=>(const Item& a, const Item& b) { return a.key <=> b.key; }
};
namespace el {
template<>
struct Elem<Item> {
    static Item make(int v) { return Item{v % 7, v}; }
    static int read(const Item& i) { return i.tag; }
};
}  // namespace el

//! Orders by the remainder: many different values are equivalent
struct ByRemainder {
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        return Elem<T>::read(a) % 5 < Elem<T>::read(b) % 5;
    }
};
struct NothingIsLess {
    template<typename T>
    bool operator()(const T&, const T&) const { return false; }
};

template<typename T, typename Cont, typename Cmp>
static void history(Case& c) {
    world.reset();
    using H = xme::Heap<T, Cont, Cmp>;
    constexpr bool copyable = std::copy_constructible<T>;
    int effective = 0;
    {
        std::vector<int> model;  // values held, in any order
        H h;
        Cmp less{};
        const bool narrow = c.chance(1, 3);
        auto value = [&] { return static_cast<int>(narrow ? c.draw(4) : c.draw(1000)); };
        auto less_int = [&](int a, int b) {
            const T x = Elem<T>::make(a), y = Elem<T>::make(b);
            return less(x, y);
        };
        auto check = [&](const char* what) {
            const H& ch = h;
            CHECK(h.size() == model.size(), what << " left " << h.size() << " elements, not " << model.size());
            CHECK(h.empty() == model.empty() && ch.empty() == model.empty() && ch.size() == model.size());
            std::vector<int> held;
            for(const auto& x : ch)
                held.push_back(Elem<T>::read(x));
            CHECK(static_cast<std::size_t>(ch.end() - ch.begin()) == model.size());
            std::vector<int> want = model;
            std::sort(held.begin(), held.end());
            std::sort(want.begin(), want.end());
            CHECK(held == want, what << " left other elements than those pushed and not yet popped");
            if(!model.empty()) {
                const T& top = ch.front();
                CHECK(std::addressof(h.front()) == std::addressof(top));
                for(const auto& x : ch)
                    CHECK(!less(top, x), "after " << what << " front() is " << Elem<T>::read(top) << " but " << Elem<T>::read(x) << " is greater");
            }
            world.check();
        };
        auto pop = [&] {
            const int top = Elem<T>::read(std::as_const(h).front());
            LOG("pop -> " << top);
            h.pop();
            auto it = std::find(model.begin(), model.end(), top);
            CHECK(it != model.end());
            model.erase(it);
            check("pop");
        };
        c.begin_loop({6, 20, 60, 200});
        const u64 pops = 1 + c.draw(5);
        while(c.more()) {
            const u64 op = c.draw(14);
            ++effective;
            if(op < pops) {
                if(!model.empty())
                    pop();
            }
            else if(op < 13) {
                const int v = value();
                if(op % 3 == 0) {
                    LOG("emplace " << v);
                    h.emplace(Elem<T>::make(v));
                }
                else if(op % 3 == 1 || !copyable) {
                    LOG("push " << v);
                    h.push(Elem<T>::make(v));
                }
                else if constexpr(copyable) {
                    LOG("push a copy of " << v);
                    const T x = Elem<T>::make(v);
                    h.push(x);
                }
                model.push_back(v);
                check("push");
            }
            else if constexpr(copyable) {
                model.clear();
                std::vector<T> src;
                const std::size_t n = c.draw(40);
                for(std::size_t i = 0; i < n; ++i) {
                    model.push_back(value());
                    src.push_back(Elem<T>::make(model.back()));
                }
                const u64 how = c.draw(6);
                LOG("new Heap of " << n << " elements, way " << how);
                switch(how) {
                case 0: h = H(src.begin(), src.end()); break;
                case 1: h = H(src); break;
                case 2: {
                    std::list<T> l(src.begin(), src.end());
                    h = H(l.begin(), l.end());
                    el::kept(l, model);
                    break;
                }
                case 3: {
                    std::forward_list<T> l(src.begin(), src.end());
                    h = H(l);
                    el::kept(l, model);
                    break;
                }
                case 4: {
                    std::size_t p = 0;
                    h = H(el::SinglePass<T>{&model, &p}, std::default_sentinel);
                    break;
                }
                default: {
                    H x(src);
                    const H y(x);
                    h = y;
                }
                }
                el::kept(src, model);
                check("construction from a range");
            }
        }
        // everything comes out in order
        std::vector<int> out;
        while(!h.empty() && out.size() < 5000) {
            out.push_back(Elem<T>::read(std::as_const(h).front()));
            pop();
        }
        for(std::size_t i = 1; i < out.size(); ++i)
            CHECK(!less_int(out[i - 1], out[i]), "popped " << out[i - 1] << " before " << out[i]);
        if(effective >= 5 && out.size() >= 3)
            c.nontrivial();
    }
    world.check_empty();
}

using TI = el::Tracked<el::copyable>;
using MO = el::Tracked<el::move_only>;
struct ByGet {
    template<typename T>
    bool operator()(const T& a, const T& b) const { return a < b; }
};

SUB_T(ints, (history<int, xme::Array<int>, std::less<>>), 3000, 40000);
SUB_T(ints_min, (history<int, xme::Array<int>, std::greater<>>), 2000, 30000);
SUB_T(in_vector, (history<Item, std::vector<Item>, std::less<>>), 2000, 30000);
SUB_T(equivalent, (history<std::string, xme::Array<std::string>, ByRemainder>), 2000, 30000);
SUB_T(no_order, (history<int, std::vector<int>, NothingIsLess>), 1000, 10000);
SUB_T(tracked, (history<TI, xme::Array<TI, el::TrackAlloc<TI>>, ByGet>), 1500, 20000);
SUB_T(move_only, (history<MO, xme::Array<MO>, ByGet>), 1500, 20000);

//! Large heaps: only the order they are emptied in
template<typename Cont, typename Cmp>
static void large(Case& c) {
    Cmp less{};
    const std::size_t n = long_length(c, 70000), k = long_length(c, 3000);
    const u64 range = c.pick<u64>({3, 1000, u64(1) << 32});
    u64 salt        = 1 + c.draw(1u << 30);
    auto next       = [&] { return static_cast<int>((((salt += 0x9E3779B97F4A7C15ull) ^ (salt >> 29)) * 0xBF58476D1CE4E5B9ull >> 31) % range); };
    std::vector<int> src(n), all;
    const u64 shape = c.draw(4);
    for(std::size_t i = 0; i < n; ++i)
        src[i] = shape == 0 ? static_cast<int>(i) : shape == 1 ? -static_cast<int>(i) : next();
    LOG("heap of " << n << " elements, shape " << shape << ", then " << k << " more");
    using H = xme::Heap<int, Cont, Cmp>;
    H h     = c.chance(1, 2) ? H(src) : H(src.begin(), src.end());
    all     = src;
    CHECK(h.size() == n);
    for(std::size_t i = 0; i < k; ++i) {
        if(i % 3 == 2) {
            auto it = std::max_element(all.end() - static_cast<long>(std::min<std::size_t>(all.size(), 1)), all.end());
            const int top = std::as_const(h).front();
            CHECK(it == all.end() || !less(top, *it), "front() is " << top << " but " << *it << " is greater");
            h.pop();
            all.erase(std::find(all.begin(), all.end(), top));
        }
        else {
            const int v = shape == 1 ? static_cast<int>(i) : next();
            h.push(v);
            all.push_back(v);
        }
    }
    CHECK(h.size() == all.size());
    std::sort(all.begin(), all.end(), [&](int a, int b) { return less(b, a); });
    for(std::size_t i = 0; i < all.size(); ++i) {
        CHECK(h.size() == all.size() - i, "size is " << h.size());
        const int top = std::as_const(h).front();
        CHECK(!less(top, all[i]) && !less(all[i], top), "after " << i << " pops front() is " << top << ", the greatest is " << all[i]);
        h.pop();
    }
    CHECK(h.empty());
    if(n > 255)
        c.nontrivial();
}
SUB_T(large_array, (large<xme::Array<int>, std::less<>>), 60, 800);
SUB_T(large_vector_min, (large<std::vector<int>, std::greater<>>), 60, 800);

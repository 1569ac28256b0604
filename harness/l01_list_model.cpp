// L01: LinkedList against a std::vector of nodes
#include "list_history.hpp"

template<typename T, typename A = std::allocator<T>>
static void history(Case& c) {
    ListHistory<T, A, values> h(c);
    h.run();
}
// nothing that would take a time proportional to the length is offered
static_assert(!std::ranges::sized_range<xme::LinkedList<int>> && !std::ranges::bidirectional_range<xme::LinkedList<int>>);
template<typename L>
constexpr bool plain_list = !requires(L l) { l.size(); } && !requires(const L l) { l.size(); } && !requires(L l) { l.back(); }
                            && !requires(L l) { l[0]; } && !requires(L l) { l.data(); };
static_assert(plain_list<xme::LinkedList<int>> && plain_list<xme::LinkedList<std::string>>);
using Tr = el::Tracked<el::copyable>;
SUB_T(ints, history<int>, 12000, 150000);
SUB_T(strings, history<std::string>, 8000, 100000);
SUB_T(tracked, (history<Tr, el::TrackAlloc<Tr>>), 6000, 100000);
SUB_T(big, history<el::BigPod>, 6000, 60000);

//! Long lists: building, splicing out ranges, reversing
SUB(long_lists, 150, 2000) {
    std::vector<int> m(long_length(c, 140000));
    int next = static_cast<int>(c.draw(1000));
    for(int& x : m)
        x = next += 7;
    LOG("list of " << m.size());
    xme::LinkedList<int> l(m.begin(), m.end());
    auto check = [&](const char* what) {
        CHECK(l.empty() == m.empty(), what);
        std::size_t i = 0;
        for(int x : l) {
            CHECK(i < m.size() && x == m[i], what << ": element " << i);
            ++i;
        }
        CHECK(i == m.size(), what << " left " << i << " elements, not " << m.size());
    };
    check("construction");
    c.begin_loop({1, 3, 5});
    while(c.more()) {
        switch(c.draw(5)) {
        case 0:
            LOG("reverse");
            l.reverse();
            std::reverse(m.begin(), m.end());
            break;
        case 1: {
            const std::size_t i = long_length(c, m.size()), j = i + long_length(c, m.size() - i);
            LOG("erase_after(" << static_cast<long>(i) - 1 << ", " << j << ")");
            auto b = i ? std::next(std::as_const(l).begin(), static_cast<long>(i) - 1) : std::as_const(l).before_begin();
            auto e = std::next(std::as_const(l).begin(), static_cast<long>(j));
            l.erase_after(b, e);
            m.erase(m.begin() + static_cast<long>(i), m.begin() + static_cast<long>(j));
            break;
        }
        case 2: {
            const std::size_t i = long_length(c, m.size());
            std::vector<int> r(long_length(c, 70000), next += 3);
            LOG("insert_after(" << static_cast<long>(i) - 1 << ", range of " << r.size() << ")");
            auto b = i ? std::next(std::as_const(l).begin(), static_cast<long>(i) - 1) : std::as_const(l).before_begin();
            l.insert_after(b, r.begin(), r.end());
            m.insert(m.begin() + static_cast<long>(i), r.begin(), r.end());
            break;
        }
        case 3: {
            LOG("copied and moved");
            xme::LinkedList<int> k(l);
            l.clear();
            CHECK(l.empty());
            l = std::move(k);
            break;
        }
        default: {
            std::vector<int> r(long_length(c, 140000), next += 5);
            for(int& x : r)
                x = next += 11;
            LOG("assign " << r.size());
            l.assign(r.begin(), r.end());
            m = r;
        }
        }
        check("operation");
    }
    if(m.size() > 255)
        c.nontrivial();
}

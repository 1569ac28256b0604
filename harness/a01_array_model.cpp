// A01: Array against std::vector<int>
#include "array_history.hpp"

template<typename T, typename A = std::allocator<T>>
static void history(Case& c) {
    ArrayHistory<T, A, values> h(c);
    h.run();
}

SUB_T(ints, history<int>, 4000, 60000);
SUB_T(strings, history<std::string>, 3000, 60000);
SUB_T(move_only, (history<el::Tracked<el::move_only>>), 2500, 50000);
SUB_T(big_with_allocator, (history<el::BigPod, el::IdAlloc<el::BigPod>>), 2500, 50000);

// Elements converted on the way in: insert, push_back and emplace_back of another type
SUB(conversions, 2000, 40000) {
    world.reset();
    xme::Array<std::string> a;
    std::vector<std::string> m;
    c.begin_loop({3, 8, 20});
    int n = 0;
    while(c.more()) {
        const char* s = c.pick<const char*>({"a", "bc", "a rather long string of characters", ""});
        const std::size_t p = c.draw(m.size() + 1);
        const auto pos = static_cast<std::ptrdiff_t>(p);
        switch(c.draw(6)) {
        case 0: a.push_back(s); m.push_back(s); LOG("push_back(\"" << s << "\")"); break;
        case 1: {
            const std::size_t k = c.draw(40);
            LOG("emplace_back(" << k << ", 'x')");
            CHECK(a.emplace_back(k, 'x') == std::string(k, 'x'));
            m.emplace_back(k, 'x');
            break;
        }
        case 2: {
            LOG("insert(" << p << ", \"" << s << "\")");
            auto r = a.insert(a.begin() + pos, s);
            CHECK(r - a.begin() == pos && *r == s);
            m.insert(m.begin() + pos, s);
            break;
        }
        case 3: {
            std::list<const char*> l(c.draw(5), s);
            LOG("insert(" << p << ", list of " << l.size() << ")");
            auto r = a.insert(a.begin() + pos, l.begin(), l.end());
            CHECK(r - a.begin() == pos);
            m.insert(m.begin() + pos, l.begin(), l.end());
            break;
        }
        case 4: {
            std::vector<const char*> l(c.draw(5), s);
            LOG("push_back(vector of " << l.size() << ")");
            a.push_back(l);
            m.insert(m.end(), l.begin(), l.end());
            break;
        }
        default: {
            LOG("Array from a list of another type");
            std::list<const char*> l(c.draw(5), s);
            a = xme::Array<std::string>(l);
            m.assign(l.begin(), l.end());
        }
        }
        ++n;
        CHECK(a.size() == m.size());
        CHECK(std::equal(m.begin(), m.end(), a.begin()), "after operation " << n);
    }
    if(n >= 3 && m.size() > 1)
        c.nontrivial();
}

//! Long Arrays: the same operations where sizes and offsets don't fit into 8 or 16 bits
template<typename T>
static void long_arrays(Case& c) {
    xme::Array<T> a;
    std::vector<T> m;
    std::size_t longest = 0;
    int n               = 0;
    u64 salt            = 1 + c.draw(1000);
    auto fresh          = [&](std::size_t k) {
        std::vector<T> r(k);
        for(auto& x : r)
            x = static_cast<T>((salt += 0x9E3779B97F4A7C15ull) >> 40);
        return r;
    };
    c.begin_loop({2, 5, 9});
    while(c.more()) {
        const auto at     = [&](std::size_t i) { return a.begin() + static_cast<std::ptrdiff_t>(i); };
        const auto mat    = [&](std::size_t i) { return m.begin() + static_cast<std::ptrdiff_t>(i); };
        const std::size_t room = m.size() < 300000 ? 300000 - m.size() : 0;
        switch(c.draw(11)) {
        case 0: {
            const auto r = fresh(long_length(c, room));
            LOG("push_back of " << r.size());
            if(c.chance(1, 2))
                a.push_back(r);
            else
                a.push_back(r.begin(), r.end());
            m.insert(m.end(), r.begin(), r.end());
            break;
        }
        case 1:
        case 2: {
            const auto r        = fresh(long_length(c, room));
            const std::size_t p = long_length(c, m.size());
            LOG("insert(" << p << ", range of " << r.size() << ")");
            auto it = c.chance(1, 2) ? a.insert(at(p), r) : a.insert(at(p), r.begin(), r.end());
            CHECK(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert returned position " << it - a.begin());
            m.insert(mat(p), r.begin(), r.end());
            break;
        }
        case 3: {
            const std::size_t p = long_length(c, m.size());
            const T x           = fresh(1)[0];
            LOG("insert(" << p << ", value)");
            auto it = a.insert(at(p), x);
            CHECK(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert returned position " << it - a.begin());
            m.insert(mat(p), x);
            break;
        }
        case 4: {
            const std::size_t p = long_length(c, m.size()), q = p + long_length(c, m.size() - p);
            LOG("erase(" << p << ", " << q << ")");
            auto it = a.erase(at(p), at(q));
            CHECK(it - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returned position " << it - a.begin());
            m.erase(mat(p), mat(q));
            break;
        }
        case 5: {
            if(m.empty())
                break;
            const std::size_t p = long_length(c, m.size() - 1);
            LOG("erase(" << p << ")");
            auto it = a.erase(at(p));
            CHECK(it - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returned position " << it - a.begin());
            m.erase(mat(p));
            break;
        }
        case 6: {
            const std::size_t k = long_length(c, room);
            const auto r        = fresh(1);
            LOG("Array of " << k << " copies of a value");
            a = xme::Array<T>(k, r[0]);
            m.assign(k, r[0]);
            break;
        }
        case 7: {
            LOG("Array copied, assigned to a short one");
            xme::Array<T> b(a);
            CHECK(b.size() == m.size());
            a = xme::Array<T>(std::size_t(3), T(1));
            a = std::as_const(b);
            break;
        }
        case 8: {
            const std::size_t k = m.size() + long_length(c, room);
            LOG("reserve(" << k << ")");
            a.reserve(k);
            CHECK(a.capacity() >= k, "capacity is " << a.capacity());
            break;
        }
        case 9: {
            const std::size_t k = long_length(c, std::min<std::size_t>(room, 70000));
            LOG(k << " elements one by one");
            const auto r = fresh(k);
            for(const T& x : r)
                a.emplace_back(x);
            m.insert(m.end(), r.begin(), r.end());
            break;
        }
        default: {
            const auto r = fresh(long_length(c, 300000));
            LOG("new Array of a range of " << r.size());
            a = c.chance(1, 2) ? xme::Array<T>(r) : xme::Array<T>(r.begin(), r.end());
            m = r;
        }
        }
        ++n;
        longest = std::max(longest, m.size());
        CHECK(a.size() == m.size(), "size is " << a.size() << ", not " << m.size());
        CHECK(a.empty() == m.empty());
        CHECK(a.capacity() >= m.size());
        CHECK(a.end() - a.begin() == static_cast<std::ptrdiff_t>(m.size()));
        CHECK(std::equal(m.begin(), m.end(), a.begin()), "after operation " << n);
        if(!m.empty())
            CHECK(a.front() == m.front() && a.back() == m.back());
    }
    if(longest > 255)
        c.nontrivial();
}
SUB_T(long_bytes, long_arrays<unsigned char>, 400, 5000);
SUB_T(long_ints, long_arrays<int>, 250, 4000);

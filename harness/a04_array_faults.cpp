// A04: constructors, copies and allocations that fail at every point
#include "array_history.hpp"

// Copying can fail, moving cannot
using Plain = el::Tracked<el::copyable, 5>;
// Everything that creates an element can fail
using Copies = el::Tracked<el::copy_only>;

//! Enumerates every point at which one operation on a generated state can fail
template<typename T>
struct Faults {
    using A   = el::TrackAlloc<T>;
    using Arr = xme::Array<T, A>;
    Case& c;

    // the state the operation starts from
    std::vector<int> init, other;
    std::size_t cap, cap_other;
    u64 op;
    std::size_t p, q, n;
    bool strong;
    std::string name;

    //! Runs the operation on a fresh state; faults are armed only meanwhile
    //! Returns true when it ended normally
    bool attempt(long k, bool memory) {
        world.reset();
        bool ok = false;
        {
            Arr a, b;
            a.reserve(cap);
            for(int v : init)
                a.emplace_back(v);
            b.reserve(cap_other);
            for(int v : other)
                b.emplace_back(v);
            std::vector<T> src;
            src.reserve(n);
            for(std::size_t i = 0; i < n; ++i)
                src.emplace_back(static_cast<int>(200 + i));
            std::list<T> lst(src.begin(), src.end());
            std::vector<int> ints;
            for(std::size_t i = 0; i < n; ++i)
                ints.push_back(static_cast<int>(200 + i));
            const T value(99);
            const auto cap_before  = a.capacity();
            const auto data_before = a.data();
            const std::size_t outside = world.live.size() - a.size() - b.size();
            const std::size_t temporaries = world.live.size();
            (void)temporaries;
            const auto at = [&](std::size_t i) { return typename Arr::const_iterator(a.begin() + static_cast<std::ptrdiff_t>(i)); };
            (memory ? world.alloc_fault : world.fault) = k;
            bool constructs = false;
            try {
                switch(op) {
                case 0: name = "push_back(const T&)"; strong = true; a.push_back(value); break;
                case 1: name = "emplace_back(int)"; strong = true; a.emplace_back(5); break;
                case 2: name = "push_back(own element)"; strong = true; a.push_back(a[static_cast<std::ptrdiff_t>(p % a.size())]); break;
                case 3: name = "reserve"; strong = true; a.reserve(cap + n); break;
                case 4: name = "resize"; strong = true; a.resize(q); break;
                case 5: name = "copy assignment"; strong = true; a = std::as_const(b); break;
                case 6: name = "assignment of a list"; strong = true; a = {T(1), T(2), T(3)}; break;
                case 7: name = "insert(const T&)"; a.insert(at(p), value); break;
                case 8: name = "insert(T&&)"; a.insert(at(p), T(4)); break;
                case 9: name = "insert(own element)"; a.insert(at(p), a[static_cast<std::ptrdiff_t>(q % a.size())]); break;
                case 10: name = "insert of iterators"; a.insert(at(p), lst.begin(), lst.end()); break;
                case 11: name = "insert of a range"; a.insert(at(p), src); break;
                case 12: {
                    name = "insert of a single pass range";
                    std::size_t pos = 0;
                    a.insert(at(p), el::SinglePass<T>{&ints, &pos}, std::default_sentinel);
                    break;
                }
                case 13: name = "push_back of iterators"; a.push_back(lst.begin(), lst.end()); break;
                case 14: name = "push_back of a range"; a.push_back(src); break;
                case 15: {
                    name = "push_back of a single pass range";
                    std::size_t pos = 0;
                    a.push_back(el::SinglePass<T>{&ints, &pos}, std::default_sentinel);
                    break;
                }
                case 16: { name = "copy construction"; strong = constructs = true; Arr x(std::as_const(a)); break; }
                case 17: { name = "Array(n)"; strong = constructs = true; Arr x(n); break; }
                case 18: { name = "Array(n, value)"; strong = constructs = true; Arr x(n, value); break; }
                case 19: { name = "Array{list}"; strong = constructs = true; Arr x{T(1), T(2), T(3), T(4)}; break; }
                case 20: { name = "Array(iterators)"; strong = constructs = true; Arr x(lst.begin(), lst.end()); break; }
                case 21: { name = "Array(range)"; strong = constructs = true; Arr x(src); break; }
                case 22: name = "erase"; if(p < a.size()) a.erase(at(p)); break;
                default: name = "erase of a range"; a.erase(at(std::min(p, q % (a.size() + 1))), at(std::max(p, q % (a.size() + 1))));
                }
                ok = true;
            }
            catch(const el::Boom&) { CHECK(world.faulted && !memory); }
            catch(const std::bad_alloc&) { CHECK(world.faulted && memory); }
            CHECK(ok == !world.faulted, name << ": the exception did not reach the caller");
            world.disarm();
            world.check();
            auto same = [&](Arr& x, const std::vector<int>& v, const char* which) {
                CHECK(x.size() == v.size(), name << " failed and " << which << " has " << x.size() << " elements, not " << v.size());
                for(std::size_t i = 0; i < v.size(); ++i)
                    CHECK(x[static_cast<std::ptrdiff_t>(i)].get() == v[i], name << " failed and element " << i << " of " << which << " changed");
            };
            same(b, other, "another Array");
            CHECK(a.size() <= a.capacity());
            for(std::size_t i = 0; i < a.size(); ++i) {
                CHECK(world.live.count(a.data() + i), name << " left element " << i << " dead");
                (void)a[static_cast<std::ptrdiff_t>(i)].get();
            }
            CHECK(world.live.size() == a.size() + b.size() + outside, name << " left " << world.live.size() - b.size() - outside << " elements alive, " << a.size() << " are in the Array");
            if(!ok && strong) {
                same(a, init, "the Array");
                CHECK(a.capacity() == cap_before, name << " failed and the capacity changed from " << cap_before << " to " << a.capacity());
                CHECK(a.data() == data_before, name << " failed and the elements were moved");
            }
            (void)constructs;
            // it can still be used
            const std::size_t sz = a.size();
            a.emplace_back(77);
            CHECK(a.size() == sz + 1 && a.back().get() == 77, "the Array is not usable after a failed " << name);
            a.insert(a.begin(), value);
            CHECK(a.size() == sz + 2 && a.front().get() == 99, "the Array is not usable after a failed " << name);
            a.reserve(a.capacity() + 3);
            Arr copy(std::as_const(a));
            CHECK(copy.size() == sz + 2);
            a.clear();
            a.push_back(value);
            world.check();
        }
        world.check_empty();
        return ok;
    }

    void run() {
        strong = false;
        auto vals = [&](std::size_t lo) {
            std::vector<int> v(lo + c.draw(7));
            for(std::size_t i = 0; i < v.size(); ++i)
                v[i] = static_cast<int>(i + 1);
            return v;
        };
        op        = c.draw(24);
        init      = vals(op == 2 || op == 9 ? 1 : 0);
        other     = vals(0);
        cap       = init.size() + c.pick({0, 0, 1, 2, 5});
        cap_other = other.size() + c.draw(3);
        p         = c.draw(init.size() + 1);
        q         = c.draw(init.size() + 6);
        n         = c.draw(6);
        LOG("operation " << op << " on " << init.size() << " elements with capacity " << cap << ", p " << p << ", q " << q << ", n " << n);
        int points = 0;
        for(const bool memory : {false, true})
            for(long k = 0;; ++k) {
                LOG("fault " << k << (memory ? " (memory)" : " (element)"));
                if(attempt(k, memory))
                    break;
                ++points;
                CHECK(k < 1000);
            }
        LOG(name << ": " << points << " points of failure");
        c.label(name);
        if(points >= 1 && !init.empty())
            c.nontrivial();
    }
};

template<typename T>
static void enumerate(Case& c) {
    Faults<T>{c}.run();
}

SUB_T(every_point, enumerate<Plain>, 4000, 60000);
SUB_T(every_point_copy_only, enumerate<Copies>, 4000, 60000);

//! Long histories in which any operation can fail
template<typename T, typename A>
static void history(Case& c) {
    using H = ArrayHistory<T, A, lifetime>;
    H h(c);
    h.start();
    c.begin_loop({5, 15, 40});
    int failed = 0;
    while(c.more()) {
        const int k = static_cast<int>(c.draw(3));
        if(c.chance(1, 2))
            world.fault = static_cast<long>(c.draw(12));
        if(c.chance(1, 4))
            world.alloc_fault = static_cast<long>(c.draw(2));
        world.faulted = false;
        try {
            h.step(k);
        }
        catch(const el::Boom&) {}
        catch(const std::bad_alloc&) {}
        if(world.faulted) {
            ++failed;
            LOG("     failed");
        }
        world.disarm();
        for(int j = 0; j < 3; ++j) {
            if(!h.arr[j])
                h.arr[j].emplace();
            h.resync(j);
        }
        h.check_all();
    }
    for(auto& a : h.arr)
        a.reset();
    world.check_empty();
    if(failed >= 2)
        c.nontrivial();
}
SUB_T(histories, (history<Plain, el::IdAlloc<Plain>>), 4000, 60000);
SUB_T(histories_copy_only, (history<Copies, el::TrackAlloc<Copies>>), 4000, 60000);

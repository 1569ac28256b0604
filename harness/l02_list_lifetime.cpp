// L02: every node once, also when things fail
#include "list_history.hpp"

using Tr = el::Tracked<el::copyable, 9>;
using Co = el::Tracked<el::copy_only>;
using Mo = el::Tracked<el::move_only>;

template<typename T, typename A>
static void history(Case& c) {
    ListHistory<T, A, lifetime> h(c);
    h.run();
}
SUB_T(tracked, (history<Tr, el::TrackAlloc<Tr>>), 6000, 100000);
SUB_T(copy_only, (history<Co, el::TrackAlloc<Co>>), 5000, 60000);
SUB_T(move_only, (history<Mo, el::TrackAlloc<Mo>>), 5000, 60000);

//! Histories in which any operation can fail
template<typename T, typename A>
static void failing(Case& c) {
    using H = ListHistory<T, A, lifetime>;
    H h(c);
    h.start();
    c.begin_loop({5, 15, 40});
    int failed = 0;
    while(c.more()) {
        const int k = static_cast<int>(c.draw(3));
        if(c.chance(1, 2))
            world.fault = static_cast<long>(c.draw(10));
        if(c.chance(1, 3))
            world.alloc_fault = static_cast<long>(c.draw(6));
        world.faulted = false;
        bool caught = false;
        try {
            h.step(k);
        }
        catch(const el::Boom&) { caught = true; }
        catch(const std::bad_alloc&) { caught = true; }
        CHECK(caught == world.faulted, "the exception did not reach the caller");
        if(caught) {
            ++failed;
            LOG("     failed");
        }
        world.disarm();
        for(int j = 0; j < 3; ++j) {
            if(!h.list[j])
                h.list[j].emplace();
            h.resync(j);
        }
        h.check_all();
    }
    for(auto& l : h.list)
        l.reset();
    world.check_empty();
    if(failed >= 2)
        c.nontrivial();
}
SUB_T(failing_tracked, (failing<Tr, el::TrackAlloc<Tr>>), 6000, 100000);
SUB_T(failing_copy_only, (failing<Co, el::TrackAlloc<Co>>), 4000, 60000);

//! One operation, failing at every point in turn
SUB(every_point, 6000, 60000) {
    using T = Tr;
    using List = xme::LinkedList<T, el::TrackAlloc<T>>;
    const std::size_t n = c.draw(7), p = c.draw(n + 1), k = c.draw(6), m = c.draw(7);
    const u64 op = c.draw(18);
    std::string name;
    int points = 0;
    LOG("operation " << op << " on " << n << " elements at " << p << " with " << k);
    for(const bool memory : {false, true})
        for(long f = 0;; ++f) {
            CHECK(f < 1000);
            world.reset();
            bool ok = false, single = false;
            {
                List l, b;
                for(std::size_t i = n; i > 0; --i)
                    l.emplace_front(static_cast<int>(i));
                for(std::size_t i = m; i > 0; --i)
                    b.emplace_front(static_cast<int>(50 + i));
                std::vector<T> src;
                src.reserve(k);
                std::vector<int> ints;
                for(std::size_t i = 0; i < k; ++i) {
                    src.emplace_back(static_cast<int>(200 + i));
                    ints.push_back(static_cast<int>(200 + i));
                }
                const T value(99);
                auto pos = l.before_begin();
                for(std::size_t i = 0; i < p; ++i)
                    ++pos;
                std::size_t sp = 0;
                const std::size_t outside = world.live.size() - n - m;
                (memory ? world.alloc_fault : world.fault) = f;
                try {
                    switch(op) {
                    case 0: name = "push_front(const T&)"; single = true; l.push_front(value); break;
                    case 1: name = "push_front(T&&)"; single = true; l.push_front(T(5)); break;
                    case 2: name = "emplace_front"; single = true; l.emplace_front(5); break;
                    case 3: name = "insert_after(const T&)"; single = true; l.insert_after(pos, value); break;
                    case 4: name = "emplace_after"; single = true; l.emplace_after(pos, 6); break;
                    case 5: name = "insert_after of iterators"; l.insert_after(pos, src.begin(), src.end()); break;
                    case 6: name = "insert_after of a range"; l.insert_after(pos, src); break;
                    case 7: name = "insert_after of a single pass range"; l.insert_after(pos, el::SinglePass<T>{&ints, &sp}, std::default_sentinel); break;
                    case 8: name = "assign of iterators"; l.assign(src.begin(), src.end()); break;
                    case 9: name = "assign of a range"; l.assign(src); break;
                    case 10: name = "assign of a list"; l.assign({T(1), T(2), T(3)}); break;
                    case 11: name = "copy assignment"; l = std::as_const(b); break;
                    case 12: { name = "LinkedList(n)"; List x(k); break; }
                    case 13: { name = "LinkedList(n, value)"; List x(k, value); break; }
                    case 14: { name = "LinkedList(iterators)"; List x(src.begin(), src.end()); break; }
                    case 15: { name = "LinkedList(range)"; List x(src); break; }
                    case 16: { name = "LinkedList{list}"; List x{T(1), T(2), T(3)}; break; }
                    default: { name = "copy construction"; List x(std::as_const(l)); }
                    }
                    ok = true;
                }
                catch(const el::Boom&) { CHECK(!memory); }
                catch(const std::bad_alloc&) { CHECK(memory); }
                CHECK(ok == !world.faulted, name << ": the exception did not reach the caller");
                world.disarm();
                world.check();
                std::size_t held = 0, other = 0;
                for(auto& x : l) {
                    CHECK(world.live.count(&x), name << " left a dead element");
                    if(!ok && (single || op >= 12))
                        CHECK(x.get() == static_cast<int>(held + 1), name << " failed and changed the list");
                    CHECK(++held < 1000, "iteration does not end");
                }
                for(auto& x : b)
                    CHECK(x.get() == static_cast<int>(51 + other) && ++other <= m, name << " changed another list");
                CHECK(other == m, name << " changed another list");
                if(!ok && (single || op >= 12))
                    CHECK(held == n, name << " failed and changed the list");
                CHECK(world.live.size() == held + m + outside, name << " left " << world.live.size() - m - outside << " elements alive, the list holds " << held);
                CHECK(world.blocks.size() == held + m, name << " left " << world.blocks.size() - m << " nodes, the list holds " << held);
                // still usable
                l.push_front(value);
                l.reverse();
                List copy(std::as_const(l));
                std::size_t cnt = 0;
                for(auto& x : copy)
                    (void)x.get(), ++cnt;
                CHECK(cnt == held + 1, "the list is not usable after a failed " << name);
                l.pop_front();
            }
            world.check_empty();
            if(ok)
                break;
            ++points;
        }
    LOG(name << ": " << points << " points of failure");
    c.label(name);
    if(points >= 1 && n > 0)
        c.nontrivial();
}

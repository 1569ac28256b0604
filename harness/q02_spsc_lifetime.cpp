// Q02: every queued element once
#include "elements.hpp"
#include <deque>
#include <memory>
#include <vector>
#include <xme/container/spsc_queue.hpp>

using el::world;

struct Refused {};

template<typename T, typename Queue>
static void drive(Case& c, Queue& q, std::size_t N, const char* lo, const char* hi) {
    std::deque<std::pair<int, u64>> m;  // value and serial of the object
    int next = 1, effective = 0;
    const std::size_t outside = world.live.size();
    c.begin_loop({8, 30, 80});
    const u64 bias = 2 + c.draw(5);
    auto alive = [&](std::size_t extra, const char* what) {
        world.check();
        CHECK(world.live.size() == outside + m.size() + extra, "after " << what << " " << world.live.size() - outside - extra << " elements are alive, " << m.size() << " are waiting");
    };
    while(c.more()) {
        ++effective;
        if(c.draw(8) < bias) {
            const int v     = next++ % 1000;
            const bool room = m.size() < N - 1;
            const bool arm  = c.chance(1, 4);
            const u64 how   = c.draw(4);
            T x(v);
            const u64 made = world.made + world.copies + world.moves;
            bool ok = false, threw = false;
            std::vector<const void*> before;
            u64 serial = world.serial;
            if(arm)
                world.fault = 0;
            try {
                switch(how) {
                case 0: ok = q.push(std::as_const(x)); break;
                case 1: ok = q.push(std::move(x)); break;
                case 2: ok = q.emplace(v); break;
                default: ok = q.emplace(std::as_const(x));
                }
            }
            catch(const el::Boom&) { threw = true; }
            world.disarm();
            LOG("push " << v << " (way " << how << ") -> " << (threw ? "threw" : ok ? "accepted" : "refused"));
            const u64 created = world.made + world.copies + world.moves - made;
            if(!room) {
                CHECK(!ok && !threw, "a value was accepted by a full queue");
                CHECK(created == 0, "a refused value created " << created << " elements");
            }
            else if(threw)
                CHECK(world.faulted);
            else {
                CHECK(ok, "a value was refused by a queue with room");
                CHECK(created == 1, "an accepted value created " << created << " elements");
                m.emplace_back(v, serial + 1);
                // the element is in the queue's storage
                for(auto& [p, o] : world.live)
                    if(o.serial == serial + 1) {
                        CHECK(p >= lo && static_cast<const char*>(p) + sizeof(T) <= hi, "the element was not created in the queue's storage");
                        CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "the element is not aligned");
                    }
            }
            world.faulted = false;
            alive(1, "push");
        }
        else if(!m.empty()) {
            const u64 how = c.draw(4);
            const u64 dead = world.dead;
            const auto [v, serial] = m.front();
            if(how == 0) {
                LOG("pop");
                q.pop();
                m.pop_front();
            }
            else if(how == 1) {
                LOG("consume, the function throws");
                bool threw = false;
                try {
                    q.consume([&](T&& x) {
                        CHECK(world.live.count(&x), "the element handed over isn't alive");
                        throw Refused{};
                    });
                }
                catch(const Refused&) { threw = true; }
                CHECK(threw, "the exception did not reach the caller");
                CHECK(world.dead == dead, "the element was destroyed although the function failed");
                alive(0, "a failed consume");
                CHECK(q.read_available() == m.size(), "a failed consume removed the element");
                continue;
            }
            else {
                q.consume([&](T&& x) {
                    CHECK(world.live.count(&x) && world.serial_of(&x) == serial, "the function was given another element");
                    CHECK(x.get() == v, "the function was given " << x.get() << ", not " << v);
                    if(how == 2)
                        T taken(std::move(x));
                });
                LOG("consume " << v);
                m.pop_front();
            }
            CHECK(world.dead > dead, "the element was not destroyed");
            for(auto& [p, o] : world.live)
                CHECK(o.serial != serial, "the element was not destroyed");
            alive(0, "pop");
        }
    }
    LOG(m.size() << " elements left to the destructor");
    if(effective > 5 && !m.empty())
        c.nontrivial();
}

template<typename T>
static void dynamic_queue(Case& c) {
    world.reset();
    {
        const std::size_t N = std::size_t(1) << c.draw(6);
        LOG("dynamic queue of " << N);
        xme::SPSCQueue<T, el::TrackAlloc<T>> q(N);
        CHECK(world.live.empty(), "a new queue created elements");
        CHECK(world.blocks.size() == 1);
        auto& [p, b] = *world.blocks.begin();
        const auto* lo = static_cast<const char*>(p);
        drive<T>(c, q, N, lo, lo + b.bytes);
        CHECK(world.blocks.size() == 1);
    }
    world.check_empty();
}

template<typename T, std::size_t N>
static void fixed(Case& c) {
    LOG("static queue of " << N);
    {
        using Q = xme::SPSCQueue<T, xme::Capacity<N>>;
        auto q = std::make_unique<Q>();
        CHECK(world.live.empty(), "a new queue created elements");
        const auto* lo = reinterpret_cast<const char*>(q.get());
        drive<T>(c, *q, N, lo, lo + sizeof(Q));
    }
    world.check_empty();
}
template<typename T>
static void static_queue(Case& c) {
    world.reset();
    switch(c.draw(4)) {
    case 0: fixed<T, 2>(c); break;
    case 1: fixed<T, 4>(c); break;
    case 2: fixed<T, 8>(c); break;
    default: fixed<T, 16>(c);
    }
}

using Plain   = el::Tracked<el::copyable, 3>;
using Aligned = el::Tracked<el::copyable, 40, 64>;
SUB_T(dynamic_plain, dynamic_queue<Plain>, 5000, 60000);
SUB_T(dynamic_aligned, dynamic_queue<Aligned>, 5000, 60000);
SUB_T(static_plain, static_queue<Plain>, 5000, 60000);
SUB_T(static_aligned, static_queue<Aligned>, 5000, 60000);

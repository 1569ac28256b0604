// A02: every element and every block exactly once
#include "array_history.hpp"

template<typename T, typename A>
static void history(Case& c) {
    ArrayHistory<T, A, lifetime> h(c);
    h.run();
}

using Plain   = el::Tracked<el::copyable>;
using Padded  = el::Tracked<el::copyable, 21>;
using Aligned = el::Tracked<el::copyable, 8, 64>;
using Copies  = el::Tracked<el::copy_only, 3>;
using Unique  = el::Tracked<el::move_only, 5>;

SUB_T(tracked, (history<Padded, el::TrackAlloc<Padded>>), 6000, 100000);
SUB_T(own_allocators, (history<Plain, el::IdAlloc<Plain>>), 6000, 100000);
SUB_T(copy_only_aligned, (history<Copies, el::TrackAlloc<Copies>>), 4000, 60000);
SUB_T(move_only, (history<Unique, el::TrackAlloc<Unique>>), 4000, 60000);

//! A new Array uses the allocator it was given
SUB(given_allocator, 1500, 30000) {
    world.reset();
    using A = el::IdAlloc<Aligned>;
    const int id        = 1 + static_cast<int>(c.draw(5));
    const std::size_t n = c.draw(9);
    const A al(id);
    {
        std::vector<Aligned> src;
        for(std::size_t i = 0; i < n; ++i)
            src.emplace_back(static_cast<int>(i));
        std::list<Aligned> lst(src.begin(), src.end());
        const u64 how = c.draw(7);
        LOG("allocator " << id << ", " << n << " elements, constructor " << how);
        auto use = [&](xme::Array<Aligned, A> a) {
            for(std::size_t i = 0; i < c.draw(12); ++i)
                a.emplace_back(1);
            for(auto& [p, b] : world.blocks)
                CHECK(b.id == id, "memory was obtained from allocator " << b.id << ", not " << id);
            CHECK(a.empty() || reinterpret_cast<std::uintptr_t>(a.data()) % alignof(Aligned) == 0);
            world.check();
        };
        switch(how) {
        case 0: use(xme::Array<Aligned, A>(al)); break;
        case 1: use(xme::Array<Aligned, A>(n, al)); break;
        case 2: use(xme::Array<Aligned, A>(n, Aligned(3), al)); break;
        case 3: use(xme::Array<Aligned, A>({Aligned(1), Aligned(2)}, al)); break;
        case 4: use(xme::Array<Aligned, A>(lst.begin(), lst.end(), al)); break;
        case 5: use(xme::Array<Aligned, A>(src, al)); break;
        default: {
            // moved along with the elements
            xme::Array<Aligned, A> from(src, al);
            xme::Array<Aligned, A> to(A(7));
            to.emplace_back(5);
            to = std::move(from);
            for(std::size_t i = 0; i < 6; ++i)
                to.emplace_back(2);
            world.check();
            to.clear();
        }
        }
        if(n)
            c.nontrivial();
    }
    world.check_empty();
}

// D01: AlignedData
#include "elements.hpp"
#include <array>
#include <cstring>
#include <memory>
#include <vector>
#include <xme/container/aligned_data.hpp>

using el::world;

struct Five {
    unsigned char b[5];
};
struct Point {
    int x;
    double y;
    friend bool operator==(const Point&, const Point&) = default;
};

template<typename AD, typename T, std::size_t Align>
static void place(AD& d, const void* object, const char* where) {
    const AD& cd = d;
    static_assert(std::is_same_v<decltype(d.data()), T*> && std::is_same_v<decltype(cd.data()), const T*>);
    static_assert(std::is_same_v<decltype(d.address()), void*> && std::is_same_v<decltype(cd.address()), const void*>);
    const auto a = reinterpret_cast<std::uintptr_t>(d.address()), o = reinterpret_cast<std::uintptr_t>(object);
    CHECK(static_cast<void*>(d.data()) == d.address(), where << ": data() and address() differ");
    CHECK(static_cast<const void*>(cd.data()) == cd.address() && cd.address() == d.address(), where << ": const access differs");
    CHECK(a % Align == 0, where << ": the address is not a multiple of " << Align);
    CHECK(a >= o && a + sizeof(T) <= o + sizeof(AD), where << ": the element is not inside the object");
}

//! Writes every byte of the element; nothing around it may change
template<typename AD, typename T>
static void write(Case& c, AD& d, unsigned char* lo, std::size_t total) {
    std::vector<unsigned char> before(lo, lo + total);
    const auto off = static_cast<std::size_t>(static_cast<unsigned char*>(d.address()) - lo);
    const auto pattern = static_cast<unsigned char>(1 + c.draw(255));
    std::memset(d.address(), pattern, sizeof(T));
    for(std::size_t i = 0; i < total; ++i)
        CHECK(lo[i] == (i >= off && i < off + sizeof(T) ? pattern : before[i]), "byte " << i << " around the element changed");
    CHECK(reinterpret_cast<const unsigned char*>(std::as_const(d).data())[sizeof(T) - 1] == pattern);
}

template<typename T, std::size_t Align>
static void layout(Case& c) {
    using AD = xme::AlignedData<T, Align>;
    static_assert(alignof(AD) >= Align);
    static_assert(sizeof(AD) >= sizeof(T));
    static_assert(std::is_trivially_copyable_v<AD> || !std::is_trivially_copyable_v<T>);
    LOG("element of " << sizeof(T) << " bytes, alignment " << Align);
    {
        char shift[3];
        AD d;
        (void)shift;
        place<AD, T, Align>(d, &d, "stack");
        AD a[3];
        for(auto& x : a)
            place<AD, T, Align>(x, &x, "array");
        for(int i = 0; i < 3; ++i)
            write<AD, T>(c, a[i], reinterpret_cast<unsigned char*>(a), sizeof a);
        struct Holder {
            char before;
            AD d;
            char after;
        } h{1, AD(), 2};
        place<AD, T, Align>(h.d, &h.d, "member");
        write<AD, T>(c, h.d, reinterpret_cast<unsigned char*>(&h), sizeof h);
        CHECK(h.before == 1 && h.after == 2, "writing the element changed its neighbours");
    }
    {
        const std::size_t n = 1 + c.draw(5);
        std::vector<AD> v(n);
        for(auto& x : v)
            place<AD, T, Align>(x, &x, "vector");
        auto p = std::make_unique<AD>();
        place<AD, T, Align>(*p, p.get(), "heap");
        std::array<AD, 2> sa;
        place<AD, T, Align>(sa[1], &sa[1], "std::array");
        if constexpr(std::is_trivially_copyable_v<T>) {
            const auto pattern = static_cast<unsigned char>(c.draw(256));
            for(std::size_t i = 0; i < sizeof(T); ++i)
                static_cast<unsigned char*>(p->address())[i] = static_cast<unsigned char>(pattern + i * 31);
            AD copy = std::as_const(*p);
            AD assigned;
            assigned = *p;
            AD again = copy;
            v[0] = *p;
            for(auto* x : {&copy, &assigned, &again, &v[0]}) {
                CHECK(std::memcmp(x->address(), p->address(), sizeof(T)) == 0, "a copy has another value");
                CHECK(x->address() != p->address());
            }
        }
    }
    c.nontrivial();
}

SUB(layouts, 6000, 40000) {
    switch(c.draw(14)) {
    case 0: layout<unsigned char, 1>(c); break;
    case 1: layout<unsigned char, 16>(c); break;
    case 2: layout<int, 4>(c); break;
    case 3: layout<int, 64>(c); break;
    case 4: layout<double, 8>(c); break;
    case 5: layout<double, 32>(c); break;
    case 6: layout<Five, 1>(c); break;
    case 7: layout<Five, 2>(c); break;
    case 8: layout<Five, 128>(c); break;
    case 9: layout<Point, alignof(Point)>(c); break;
    case 10: layout<Point, 256>(c); break;
    case 11: layout<long double, alignof(long double)>(c); break;
    case 12: layout<int, 4096>(c); break;
    default: layout<std::array<int, 33>, 64>(c);
    }
}

//! Created from arguments
SUB(values, 6000, 60000) {
    world.reset();
    const int v = static_cast<int>(c.range(-1000, 1000));
    switch(c.draw(6)) {
    case 0: {
        LOG("int " << v);
        xme::AlignedData<int, 32> d(v);
        CHECK(*d.data() == v);
        *d.data() += 1;
        CHECK(*std::as_const(d).data() == v + 1);
        auto e = d;
        *d.data() = 0;
        CHECK(*e.data() == v + 1, "a copy is not independent");
        break;
    }
    case 1: {
        LOG("Point " << v);
        xme::AlignedData<Point> d(v, v / 8.0);
        CHECK(d.data()->x == v && d.data()->y == v / 8.0);
        xme::AlignedData<Point> e(Point{v, 2.5});
        CHECK((*e.data() == Point{v, 2.5}));
        d = e;
        CHECK((*d.data() == Point{v, 2.5}));
        break;
    }
    case 2: {
        const std::size_t n = c.draw(80);
        LOG("string of " << n);
        xme::AlignedData<std::string> d(n, 'x'), e(std::string("some text that is long enough to be allocated"));
        CHECK(*d.data() == std::string(n, 'x'));
        CHECK(e.data()->size() == 45);
        d.data()->append("abc");
        CHECK(d.data()->size() == n + 3);
        std::destroy_at(d.data());
        std::destroy_at(e.data());
        break;
    }
    case 3: {
        using T = el::Tracked<el::copyable, 7, 64>;
        LOG("Tracked " << v);
        {
            xme::AlignedData<T, 128> d(v);
            CHECK(d.data()->get() == v);
            CHECK(world.live.size() == 1 && world.live.count(d.data()), "one element must be alive, at data()");
            CHECK(reinterpret_cast<std::uintptr_t>(d.data()) % 128 == 0);
            std::destroy_at(d.data());
            const T x(v + 1);
            xme::AlignedData<T> f(x), g{T(v + 2)};
            CHECK(f.data()->get() == v + 1 && g.data()->get() == v + 2);
            std::destroy_at(f.data());
            std::destroy_at(g.data());
        }
        world.check_empty();
        break;
    }
    case 4: {
        using T = el::Tracked<el::move_only>;
        {
            T x(v);
            xme::AlignedData<T> d(std::move(x));
            CHECK(d.data()->get() == v && x.get() == T::moved_from, "the argument was not moved");
            std::destroy_at(d.data());
            // none is created without arguments... nor destroyed
            const u64 ops = world.ops();
            { xme::AlignedData<T> none; (void)none; }
            CHECK(world.ops() == ops, "an AlignedData without arguments touched an element");
        }
        world.check_empty();
        break;
    }
    default: {
        LOG("pointer");
        int target = v;
        xme::AlignedData<int*, 64> d(&target);
        CHECK(**d.data() == v);
    }
    }
    c.nontrivial();
}

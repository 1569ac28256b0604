// Element types and allocators that keep a ledger of what happens to them.
#pragma once
#include "pbt.hpp"
#include <compare>
#include <cstddef>
#include <cstdlib>
#include <initializer_list>
#include <memory>
#include <new>
#include <ranges>
#include <span>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace el {
using pbt::u64;
using pbt::long_length;

//! Thrown by an injected fault
struct Boom {};

struct Block {
    std::size_t n;
    std::size_t bytes;
    int id;
};

//! What is alive. Errors are recorded, and reported by check(), as they are
//! found inside destructors and noexcept functions.
struct World {
    struct Obj {
        u64 serial;
        u64 writes;
    };
    std::unordered_map<const void*, Obj> live;
    std::unordered_map<const void*, Block> blocks;
    std::string error;
    u64 serial = 0;
    u64 made = 0, copies = 0, moves = 0, assigns = 0, dead = 0;
    u64 allocs = 0, frees = 0;
    //! how many more element creations/copies (allocations) succeed; negative: all
    long fault = -1, alloc_fault = -1;
    bool faulted = false;

    void reset() { *this = World{}; }

    template<typename... A>
    void err(const A&... a) {
        if(!error.empty())
            return;
        std::ostringstream os;
        (os << ... << a);
        error = os.str();
    }
    void check() const {
        if(!error.empty())
            pbt::fail(error);
    }
    void disarm() { fault = alloc_fault = -1; }

    void may_throw() {
        if(fault < 0)
            return;
        if(fault-- == 0) {
            faulted = true;
            throw Boom{};
        }
    }

    void create(const void* p) {
        if(!live.emplace(p, Obj{++serial, 0}).second)
            err("an element was created over one that is alive");
    }
    void destroy(const void* p) {
        ++dead;
        if(live.erase(p) == 0)
            err("an element that isn't alive was destroyed");
    }
    void use(const void* p, const char* what) {
        if(live.find(p) == live.end())
            err("an element that isn't alive was ", what);
    }
    void write(const void* p, const char* what) {
        auto it = live.find(p);
        if(it == live.end())
            err("an element that isn't alive was ", what);
        else
            ++it->second.writes;
    }
    u64 serial_of(const void* p) {
        auto it = live.find(p);
        return it == live.end() ? 0 : it->second.serial;
    }
    u64 ops() const { return made + copies + moves + assigns + dead; }

    //! nothing may be left
    void check_empty() const {
        check();
        CHECK(live.empty(), live.size() << " elements were not destroyed");
        CHECK(blocks.empty(), blocks.size() << " blocks of memory were not returned");
    }
};
inline World world;

enum Kind { copyable = 0, move_only = 1, copy_only = 2 };

//! Size: bytes of padding that must stay as they were written
template<Kind K = copyable, std::size_t Pad = 0, std::size_t Align = alignof(int)>
struct alignas(Align) Tracked {
    static constexpr int moved_from = -1'000'000;

    Tracked() {
        world.may_throw();
        ++world.made;
        world.create(this);
        set(0);
    }
    Tracked(int x) {
        world.may_throw();
        ++world.made;
        world.create(this);
        set(x);
    }
    Tracked(const Tracked& o)
        requires(K != move_only)
    {
        world.use(&o, "copied");
        world.may_throw();
        ++world.copies;
        world.create(this);
        set(o.v);
    }
    Tracked(Tracked&& o) noexcept
        requires(K != copy_only)
    {
        world.use(&o, "moved from");
        ++world.moves;
        world.create(this);
        set(o.v);
        o.set(moved_from);
    }
    Tracked& operator=(const Tracked& o)
        requires(K != move_only)
    {
        world.use(&o, "copied");
        world.write(this, "assigned to");
        world.may_throw();
        ++world.assigns;
        set(o.v);
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
        requires(K != copy_only)
    {
        world.use(&o, "moved from");
        world.write(this, "assigned to");
        ++world.assigns;
        if(this != &o) {
            set(o.v);
            o.set(moved_from);
        }
        return *this;
    }
    ~Tracked() {
        world.destroy(this);
        v = -2'000'000;
    }

    int get() const {
        world.use(this, "read");
        for(std::size_t i = 0; i < Pad; ++i)
            if(pad[i] != static_cast<unsigned char>(v + i))
                world.err("an element was overwritten");
        return v;
    }

    friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
    friend auto operator<=>(const Tracked& a, const Tracked& b) { return a.get() <=> b.get(); }

private:
    void set(int x) {
        v = x;
        for(std::size_t i = 0; i < Pad; ++i)
            pad[i] = static_cast<unsigned char>(x + i);
    }
    int v;
    [[no_unique_address]] struct Empty {} e;
    unsigned char pad[Pad ? Pad : 1];
};

struct BigPod {
    int a[9];
    friend bool operator==(const BigPod&, const BigPod&) = default;
};

template<typename T>
struct Elem;

template<>
struct Elem<int> {
    static const char* name() { return "int"; }
    static int make(int v) { return v; }
    static int read(int v) { return v; }
};
template<>
struct Elem<unsigned char> {
    static const char* name() { return "uchar"; }
    static unsigned char make(int v) { return static_cast<unsigned char>(v); }
    static int read(unsigned char v) { return v; }
};
template<>
struct Elem<double> {
    static const char* name() { return "double"; }
    static double make(int v) { return v; }
    static int read(double v) { return static_cast<int>(v); }
};
template<>
struct Elem<std::string> {
    static const char* name() { return "string"; }
    // even ones own memory
    static std::string make(int v) {
        return v % 2 ? std::to_string(v) : std::to_string(v) + " is a string that is long";
    }
    static int read(const std::string& s) {
        char* end;
        const long v = std::strtol(s.c_str(), &end, 10);
        return s == make(static_cast<int>(v)) ? static_cast<int>(v) : -3'000'000;
    }
};
template<>
struct Elem<BigPod> {
    static const char* name() { return "BigPod"; }
    static BigPod make(int v) {
        BigPod b;
        for(int i = 0; i < 9; ++i)
            b.a[i] = v + i;
        return b;
    }
    static int read(const BigPod& b) { return b == make(b.a[0]) ? b.a[0] : -3'000'000; }
};
template<Kind K, std::size_t P, std::size_t A>
struct Elem<Tracked<K, P, A>> {
    static const char* name() {
        return K == copyable ? "Tracked" : K == move_only ? "MoveOnly" : "CopyOnly";
    }
    static Tracked<K, P, A> make(int v) { return Tracked<K, P, A>(v); }
    static int read(const Tracked<K, P, A>& t) { return t.get(); }
};

constexpr std::size_t guard = 64;

inline void* raw_allocate(std::size_t n, std::size_t size, int id) {
    if(world.alloc_fault >= 0 && world.alloc_fault-- == 0) {
        world.faulted = true;
        throw std::bad_alloc();
    }
    ++world.allocs;
    if(n > (std::size_t(1) << 32)) {
        world.err("an absurd amount of memory was asked for: ", n);
        throw std::bad_alloc();
    }
    const std::size_t bytes = n * size;
    const std::size_t total = (bytes + 2 * guard + 63) / 64 * 64;
    auto* p = static_cast<unsigned char*>(std::aligned_alloc(64, total));
    if(!p)
        throw std::bad_alloc();
    std::memset(p, 0xCD, total);
    world.blocks[p + guard] = Block{n, bytes, id};
    return p + guard;
}

inline void raw_deallocate(void* q, std::size_t n, int id) {
    auto it = world.blocks.find(q);
    if(it == world.blocks.end()) {
        world.err("memory that wasn't obtained was returned");
        return;
    }
    ++world.frees;
    const Block b = it->second;
    if(b.n != n)
        world.err("memory for ", b.n, " elements was returned as memory for ", n);
    if(b.id != id)
        world.err("memory of allocator ", b.id, " was returned to allocator ", id);
    auto* p = static_cast<unsigned char*>(q);
    for(std::size_t i = 1; i <= guard; ++i)
        if(p[-static_cast<std::ptrdiff_t>(i)] != 0xCD)
            world.err("memory before a block was written");
    for(std::size_t i = 0; i < guard; ++i)
        if(p[b.bytes + i] != 0xCD)
            world.err("memory after a block was written");
    for(auto& [o, obj] : world.live)
        if(o >= q && o < p + b.bytes) {
            world.err("memory was returned with an element alive in it");
            break;
        }
    std::memset(p, 0xDD, b.bytes);
    world.blocks.erase(it);
    std::free(p - guard);
}

//! All equal
template<typename T>
struct TrackAlloc {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    using is_always_equal = std::true_type;
    static constexpr bool stateful = false;
    TrackAlloc() noexcept = default;
    template<typename U>
    TrackAlloc(const TrackAlloc<U>&) noexcept {}
    T* allocate(std::size_t n) { return static_cast<T*>(raw_allocate(n, sizeof(T), 0)); }
    void deallocate(T* p, std::size_t n) noexcept { raw_deallocate(p, n, 0); }
    friend bool operator==(const TrackAlloc&, const TrackAlloc&) { return true; }
    static TrackAlloc with(int) { return {}; }
};

//! Only equal when they have the same id; swaps with its container
template<typename T>
struct IdAlloc {
    using value_type      = T;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    using is_always_equal = std::false_type;
    using propagate_on_container_swap            = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    using propagate_on_container_copy_assignment = std::true_type;
    static constexpr bool stateful = true;
    int id = 0;
    IdAlloc() noexcept = default;
    explicit IdAlloc(int i) noexcept : id(i) {}
    template<typename U>
    IdAlloc(const IdAlloc<U>& o) noexcept : id(o.id) {}
    T* allocate(std::size_t n) { return static_cast<T*>(raw_allocate(n, sizeof(T), id)); }
    void deallocate(T* p, std::size_t n) noexcept { raw_deallocate(p, n, id); }
    friend bool operator==(const IdAlloc& a, const IdAlloc& b) { return a.id == b.id; }
    static IdAlloc with(int i) { return IdAlloc(i); }
};

//! An input iterator that can only be read once
template<typename T>
struct SinglePass {
    using value_type       = T;
    using difference_type  = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    const std::vector<int>* src = nullptr;
    std::size_t* pos            = nullptr;
    T operator*() const {
        if(*pos >= src->size())
            world.err("a single pass range was read past its end");
        return Elem<T>::make((*src)[*pos]);
    }
    SinglePass& operator++() {
        ++*pos;
        return *this;
    }
    void operator++(int) { ++*pos; }
    friend bool operator==(const SinglePass& a, std::default_sentinel_t) {
        return *a.pos >= a.src->size();
    }
};

//! The elements of a range that was to be copied are what they were
template<typename R>
void kept(R&& source, const std::vector<int>& vs) {
    std::size_t i = 0;
    for(auto&& x : source) {
        const int v = Elem<std::remove_cvref_t<decltype(x)>>::read(x);
        CHECK(i < vs.size() && v == vs[i], "element " << i << " of the source is now " << v);
        ++i;
    }
    CHECK(i == vs.size(), "the source now has " << i << " elements");
}

//! Calls f with the elements of e, whose values are vs, as a temporary range: views of several kinds, a container
inline constexpr u64 temporaries = 7;
template<typename T, typename F>
void temporary(u64 form, const std::vector<int>& vs, std::vector<T>& e, F&& f) {
    switch(form) {
    case 0: f(std::span<const T>(e)); break;
    case 1: f(std::span<T>(e)); break;
    case 2: f(vs | std::views::transform([](int x) { return Elem<T>::make(x); })); break;
    // can't be iterated when constant, and has no size
    case 3: f(e | std::views::filter([](const T&) { return true; })); break;
    case 4: f(std::vector<T>(e)); break;
    // two types of iterators
    case 5: f(e | std::views::take_while([](const T&) { return true; })); break;
    default: f(std::ranges::subrange(e.data(), e.data() + e.size()));
    }
    kept(e, vs);
}
}  // namespace el

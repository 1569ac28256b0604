// F03: Delegate and the lifetime of its targets
#include <cstddef>
#include <cstdlib>
#include <new>

// Every block of memory obtained while a Delegate works
namespace mem {
struct Entry {
    void* p;
};
inline constexpr int max = 4096;
inline Entry table[max];
inline int used = 0, depth = 0;
inline long fail_at = -1;  // allocations that succeed before one fails
inline bool failed  = false;
inline bool lost    = false;

struct Watch {
    Watch() { ++depth; }
    ~Watch() { --depth; }
};
struct Pause {
    int d = depth;
    Pause() { depth = 0; }
    ~Pause() { depth = d; }
};
inline void* get(std::size_t n, std::size_t align) {
    if(depth > 0 && fail_at >= 0 && fail_at-- == 0) {
        failed = true;
        throw std::bad_alloc();
    }
    if(n == 0)
        n = 1;
    void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n);
    if(!p)
        throw std::bad_alloc();
    if(depth > 0) {
        if(used < max)
            table[used++] = {p};
        else
            lost = true;
    }
    return p;
}
inline void put(void* p) {
    if(!p)
        return;
    for(int i = used; i-- > 0;)
        if(table[i].p == p) {
            table[i] = table[--used];
            break;
        }
    std::free(p);
}
}  // namespace mem
void* operator new(std::size_t n) { return mem::get(n, 1); }
void* operator new[](std::size_t n) { return mem::get(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return mem::get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return mem::get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, std::size_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::size_t) noexcept { mem::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mem::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mem::put(p); }

#include "elements.hpp"
#include <functional>
#include <memory>
#include <xme/core/functional/delegate.hpp>

using el::Boom;
using el::world;
using D = xme::Delegate<int(int)>;

//! A target that is in the ledger and knows where it is
template<int Id, std::size_t Pad, std::size_t Align = alignof(int)>
struct alignas(Align) Target {
    int v;
    [[no_unique_address]] std::conditional_t<(Pad > 0), std::array<unsigned char, Pad>, std::array<unsigned char, 0>> pad;

    explicit Target(int x) : v(x) {
        mem::Pause p;
        fill();
        ++world.made;
        world.create(this);
    }
    Target(const Target& o) : v(o.get("copied")) {
        mem::Pause p;
        world.may_throw();
        fill();
        ++world.copies;
        world.create(this);
    }
    Target(Target&& o) noexcept : v(o.get("moved from")) {
        mem::Pause p;
        fill();
        ++world.moves;
        world.create(this);
        o.v = -77;
        o.fill();
    }
    ~Target() {
        mem::Pause p;
        world.destroy(this);
        v = -78;
    }
    int operator()(int a) {
        const int r = get("called") * 1000 + a;
        ++v;
        fill();
        return r;
    }
    int get(const char* what) const {
        mem::Pause p;
        world.use(this, what);
        if(reinterpret_cast<std::uintptr_t>(this) % Align)
            world.err("a target is not aligned");
        for(std::size_t i = 0; i < Pad; ++i)
            if(pad[i] != static_cast<unsigned char>(v + i))
                world.err("a target was overwritten");
        return v;
    }

private:
    void fill() {
        for(std::size_t i = 0; i < Pad; ++i)
            pad[i] = static_cast<unsigned char>(v + i);
    }
};

//! A small target that refers to its own address
struct SelfRef {
    const SelfRef* self;
    static inline std::map<const void*, int> values;
    explicit SelfRef(int x) : self(this) {
        mem::Pause p;
        world.create(this);
        values[this] = x;
    }
    SelfRef(const SelfRef& o) : self(this) {
        mem::Pause p;
        world.use(&o, "copied");
        world.may_throw();
        ++world.copies;
        world.create(this);
        values[this] = values[&o];
    }
    SelfRef(SelfRef&& o) noexcept : self(this) {
        mem::Pause p;
        world.use(&o, "moved from");
        ++world.moves;
        world.create(this);
        values[this] = values[&o];
    }
    ~SelfRef() {
        mem::Pause p;
        world.destroy(this);
        values.erase(this);
        self = nullptr;
    }
    int operator()(int a) {
        mem::Pause p;
        world.use(this, "called");
        if(self != this) {
            world.err("a target that refers to itself was moved byte by byte");
            return -1;
        }
        return values[this]++ * 1000 + a;
    }
};

using T0 = Target<0, 0>;          // small
using T1 = Target<1, 4>;          // of the size of a pointer
using T2 = Target<2, 100>;        // large
using T3 = Target<3, 60, 64>;     // over-aligned
using T4 = Target<4, 12, 8>;      // of the size of a member pointer

template<typename F>
static void with_target(int k, int v, F&& use) {
    switch(k) {
    case 0: { T0 t(v); return use(t); }
    case 1: { T1 t(v); return use(t); }
    case 2: { T2 t(v); return use(t); }
    case 3: { T3 t(v); return use(t); }
    case 4: { T4 t(v); return use(t); }
    default: { SelfRef t(v); return use(t); }
    }
}

struct Machine {
    static constexpr int N = 4;
    alignas(D) unsigned char room[N][sizeof(D)];
    bool alive[N] = {};
    bool held[N]  = {};
    int value[N]  = {};
    int next = 0;
    bool faults;

    D& d(int i) { return *std::launder(reinterpret_cast<D*>(room[i])); }

    template<typename... A>
    void make(int i, A&&... a) {
        mem::Watch w;
        ::new(static_cast<void*>(room[i])) D(std::forward<A>(a)...);
    }
    void kill(int i) {
        if(!alive[i])
            return;
        mem::Watch w;
        d(i).~D();
        alive[i] = held[i] = false;
        std::memset(room[i], 0xEE, sizeof(D));
    }
    void settle(const char* what) {
        world.check();
        std::size_t n = 0;
        for(int i = 0; i < N; ++i)
            n += held[i];
        CHECK(world.live.size() == n, what << ": " << world.live.size() << " targets are alive, the Delegates have " << n);
        for(int i = 0; i < N; ++i)
            if(alive[i])
                CHECK(static_cast<bool>(d(i)) == held[i], what << ": Delegate " << i << (held[i] ? " is empty" : " isn't empty"));
        // (an empty Delegate may not hold memory for ever, which the end checks)
    }
    void call(Case& c, int i) {
        if(!alive[i] || !held[i])
            return;
        const int a = static_cast<int>(c.draw(1000));
        int r;
        {
            mem::Watch w;
            r = d(i)(a);
        }
        world.check();
        CHECK(r == value[i] * 1000 + a, "Delegate " << i << " called another target, or one with another state: " << r << " instead of " << value[i] * 1000 + a);
        ++value[i];
    }

    //! f may fail; returns whether it did
    template<typename F>
    bool attempt(Case& c, F&& f) {
        if(faults) {
            if(c.draw(2))
                world.fault = static_cast<long>(c.draw(2));
            else
                mem::fail_at = static_cast<long>(c.draw(2));
        }
        bool failed = false;
        try {
            f();
        }
        catch(const Boom&) {
            failed = true;
        }
        catch(const std::bad_alloc&) {
            failed = true;
        }
        const bool was_armed_and_hit = world.faulted || mem::failed;
        world.disarm();
        mem::fail_at = -1;
        CHECK(!failed || was_armed_and_hit, "an operation failed by itself");
        CHECK(failed || !was_armed_and_hit, "a failure did not reach the caller");
        world.faulted = mem::failed = false;
        return failed;
    }

    int failures = 0;

    void run(Case& c) {
        int n = 0, swaps = 0;
        c.begin_loop({4, 10, 25, 60});
        while(c.more()) {
            const int i = static_cast<int>(c.draw(N)), j = static_cast<int>(c.draw(N));
            const int k = static_cast<int>(c.draw(6));
            ++n;
            const u64 op = c.draw(13);
            const u64 copies = world.copies, live = world.live.size();
            if(op <= 2) {  // create from a callable
                kill(i);
                const int v = ++next;
                LOG(i << " created with target " << v << " of kind " << k << " op " << op);
                bool failed = false;
                with_target(k, v, [&](auto& t) {
                    failed = attempt(c, [&] {
                        if(op == 0)
                            make(i, std::move(t));
                        else if(op == 1)
                            make(i, t);
                        else
                            make(i, std::as_const(t));
                    });
                    if(op == 0 && !failed)
                        CHECK(world.copies == copies, "a callable given as an rvalue is copied");
                    if(op && !failed)
                        CHECK(world.copies == copies + 1, "a callable given as an lvalue is copied " << world.copies - copies << " times");
                    CHECK(op == 0 || t(5) == v * 1000 + 5, "creating a Delegate changed the callable it was given");
                    world.check();
                });
                failures += failed;
                alive[i] = held[i] = !failed;
                value[i] = v;
            }
            else if(op == 3) {  // copy construction
                if(i != j && alive[j]) {
                    kill(i);
                    LOG(i << " created as a copy of " << j);
                    const bool failed = attempt(c, [&] { c.draw(2) ? make(i, std::as_const(d(j))) : make(i, d(j)); });
                    failures += failed;
                    alive[i] = !failed;
                    held[i]  = !failed && held[j];
                    value[i] = value[j];
                    if(!failed)
                        CHECK(world.copies == copies + held[j], "copying a Delegate copies its target " << world.copies - copies << " times");
                    call(c, j);
                }
            }
            else if(op == 4) {
                if(i != j && alive[j]) {
                    kill(i);
                    LOG(i << " created by moving " << j);
                    make(i, std::move(d(j)));
                    CHECK(world.copies == copies, "moving a Delegate copies its target");
                    alive[i] = true, held[i] = held[j], value[i] = value[j];
                    held[j] = false;
                }
            }
            else if(op == 5) {
                if(alive[i] && alive[j] && i != j) {
                    LOG(i << " = move of " << j);
                    {
                        mem::Watch w;
                        d(i) = std::move(d(j));
                    }
                    CHECK(world.copies == copies, "move assigning a Delegate copies its target");
                    held[i] = held[j], value[i] = value[j];
                    held[j] = false;
                    ++swaps;
                }
            }
            else if(op == 6) {
                if(alive[i] && alive[j]) {
                    LOG(i << " = copy of " << j);
                    {
                        mem::Watch w;
                        d(i) = std::as_const(d(j));
                    }
                    CHECK(i == j || world.copies == copies + held[j], "copy assigning a Delegate copies its target " << world.copies - copies << " times");
                    held[i] = held[j], value[i] = value[j];
                }
            }
            else if(op == 7) {
                if(alive[i] && alive[j]) {
                    LOG("swap " << i << ' ' << j);
                    {
                        mem::Watch w;
                        if(c.draw(2))
                            d(i).swap(d(j));
                        else if(i != j)
                            std::swap(d(i), d(j));
                    }
                    CHECK(world.copies == copies, "swapping Delegates copies targets");
                    std::swap(held[i], held[j]);
                    std::swap(value[i], value[j]);
                    ++swaps;
                }
            }
            else if(op == 8) {
                if(alive[i]) {
                    LOG(i << " = nullptr");
                    {
                        mem::Watch w;
                        d(i) = nullptr;
                    }
                    held[i] = false;
                }
            }
            else if(op == 9) {
                if(alive[i]) {
                    const int v = ++next;
                    LOG(i << " = target " << v << " of kind " << k);
                    with_target(k, v, [&](auto& t) {
                        mem::Watch w;
                        if(c.draw(2)) {
                            d(i) = std::move(t);
                        }
                        else
                            d(i) = t;
                    });
                    held[i]  = true;
                    value[i] = v;
                }
            }
            else if(op == 12) {
                // a copy of a target that a Delegate holds, which may be the very one assigned to
                if(alive[i] && alive[j] && held[j]) {
                    LOG(i << " = target of " << j << ", through handle()");
                    const int v = value[j];
                    bool found  = false;
                    auto one = [&]<typename F>() {
                        if(const F* h = std::as_const(d(j)).template handle<F>()) {
                            CHECK(!found, "handle() gives targets of two types");
                            found = true;
                            mem::Watch w;
                            d(i) = *h;
                        }
                    };
                    one.template operator()<T0>();
                    if(!found) one.template operator()<T1>();
                    if(!found) one.template operator()<T2>();
                    if(!found) one.template operator()<T3>();
                    if(!found) one.template operator()<T4>();
                    if(!found) one.template operator()<SelfRef>();
                    CHECK(found, "handle() gives no target");
                    held[i]  = true;
                    value[i] = v;
                }
            }
            else if(op == 10) {
                LOG("destroy " << i);
                kill(i);
            }
            else
                call(c, i);
            settle("after an operation");
            if(c.draw(3) == 0)
                for(int x = 0; x < N; ++x)
                    call(c, x);
        }
        for(int i = 0; i < N; ++i)
            call(c, i);
        for(int i = 0; i < N; ++i)
            kill(i);
        settle("at the end");
        CHECK(!mem::lost, "too much memory is held");
        CHECK(mem::used == 0, mem::used << " blocks of memory were not returned");
        if(n >= 5 && (faults ? failures >= 1 : swaps >= 1))
            c.nontrivial();
    }
};

template<bool Faults>
static void history(Case& c) {
    world.reset();
    mem::used = 0, mem::lost = mem::failed = false, mem::fail_at = -1;
    SelfRef::values.clear();
    {
        Machine m;
        m.faults = Faults;
        m.run(c);
    }
    world.check_empty();
}
SUB_T(histories, history<false>, 10000, 150000);
SUB_T(failures, history<true>, 10000, 150000);

// F04: ScopedDelegate against the sequence of calls its scopes must make
#include "elements.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <vector>
#include <xme/core/functional/scoped_delegate.hpp>

using el::world;

static std::vector<int> calls;

//! Calls are recorded with the state of the function at the moment of the call
struct Fn {
    int id;
    void operator()() { calls.push_back(id); }
};
struct ConstFn {
    int id;
    void operator()() const { calls.push_back(id); }
};
struct TrackedFn {
    el::Tracked<el::copyable> t;
    void operator()() { calls.push_back(t.get()); }
};
struct MoveOnlyFn {
    el::Tracked<el::move_only> t;
    void operator()() { calls.push_back(t.get()); }
};
struct OwnFn {
    std::shared_ptr<int> p;
    int big[12];
    int operator()() {
        calls.push_back(*p);
        return *p;
    }
};
//! Knows which of all objects it is: the one called must be the one that the ScopedDelegate holds
struct SelfFn {
    static inline long made = 0;
    long serial = ++made;
    int id;
    const long* held;
    SelfFn(int i, const long* h) : id(i), held(h) {}
    SelfFn(const SelfFn& o) : id(o.id), held(o.held) {}
    SelfFn(SelfFn&& o) noexcept : id(o.id), held(o.held) { o.id = -7; }
    void operator()() { calls.push_back(serial == *held ? id : -300); }
};
static void plain() { calls.push_back(-100); }

struct Leave {};

struct Scopes {
    Case& c;
    int next = 0;
    std::vector<int> expect;
    int depth = 0, left_early = 0, made = 0;

    //! A scope with some delegates; returns false when the scopes around it are to be left by return too
    bool scope(int d) {
        const u64 how = c.draw(5);
        const u64 kind = c.draw(11);
        const int id = ++next;
        const std::size_t before = calls.size();
        depth = std::max(depth, d);
        ++made;
        LOG(std::string(d, ' ') << "scope " << id << " kind " << kind << " left by way " << how);
        //! mine: what an exception from here makes this scope call
        auto inside = [&](std::initializer_list<int> mine) -> bool {
            CHECK(calls.size() == expect.size(), "a function was called before the end of its scope");
            bool go = true;
            if(d < 6)
                while(c.draw(3) == 2 && go)
                    try {
                        go = scope(d + 1);
                    }
                    catch(const Leave&) {
                        expect.insert(expect.end(), mine);
                        throw;
                    }
            CHECK(calls == expect, "after inner scopes");
            return go;
        };
        //! ends the scope
        auto finish = [&](int value) {
            expect.push_back(value);
            left_early += how != 0;
        };
        switch(kind) {
        case 0: {
            // an lvalue is copied: later changes of the original don't count
            Fn f{id};
            {
                xme::ScopedDelegate s(f);
                f.id = -1;
                const bool go = inside({id});
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            break;
        }
        case 10: {
            long held = 0;
            SelfFn f(id, &held);
            const bool copy = c.draw(2);
            auto body = [&](auto& s) {
                (void)s;
                held          = SelfFn::made;
                const bool go = inside({id});
                finish(id);
                return go;
            };
            bool go = true;
            if(copy) {
                xme::ScopedDelegate s(f);
                go = body(s);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            else {
                xme::ScopedDelegate s(std::move(f));
                go = body(s);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            break;
        }
        case 1: {
            xme::ScopedDelegate s(Fn{id});
            const bool go = inside({id});
            finish(id);
            if(how == 1)
                return go;
            if(how == 2)
                throw Leave{};
            break;
        }
        case 2: {
            const ConstFn f{id};
            for(int round = 0; round < 3; ++round) {
                xme::ScopedDelegate<const ConstFn> s(f);
                const bool go = inside({id});
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
                if(how == 3)
                    break;
                if(how == 4)
                    continue;
                round = 3;
            }
            break;
        }
        case 3: {
            // what the function refers to is seen as it is at the end
            int value = 0;
            {
                xme::ScopedDelegate s([&value] { calls.push_back(value); });
                value = 1;
                const bool go = inside({1});
                value = id;
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            break;
        }
        case 4: {
            TrackedFn f{id};
            const std::size_t live = world.live.size();
            {
                xme::ScopedDelegate s(f);
                CHECK(f.t.get() == id, "the function given as an lvalue was moved from");
                CHECK(world.live.size() == live + 1, "a ScopedDelegate holds " << world.live.size() - live << " copies of its function");
                f.t = el::Tracked<el::copyable>(0);
                const bool go = inside({id});
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            CHECK(world.live.size() == live, "the function was not destroyed");
            break;
        }
        case 5: {
            const std::size_t live = world.live.size();
            {
                MoveOnlyFn f{el::Tracked<el::move_only>(id)};
                xme::ScopedDelegate s(std::move(f));
                const bool go = inside({id});
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
            }
            CHECK(world.live.size() == live, "the function was not destroyed");
            break;
        }
        case 6: {
            // on the heap, ended explicitly
            auto p = std::make_unique<xme::ScopedDelegate<OwnFn>>(OwnFn{std::make_shared<int>(id), {}});
            const bool go = inside({id});
            finish(id);
            p.reset();
            CHECK(calls == expect, "the function wasn't called at the end of the lifetime");
            if(how == 1)
                return go;
            if(how == 2)
                throw Leave{};
            break;
        }
        case 7: {
            void (*f)() = plain;
            xme::ScopedDelegate s(f);
            f = nullptr;
            const bool go = inside({-100});
            finish(-100);
            if(how == 1)
                return go;
            if(how == 2)
                throw Leave{};
            break;
        }
        case 8: {
            // an lvalue used again and again
            OwnFn f{std::make_shared<int>(id), {}};
            for(int round = 0; round < 3; ++round) {
                xme::ScopedDelegate<OwnFn> s(f);
                CHECK(f.p && f.p.use_count() == 2, "the function given as an lvalue wasn't copied");
                const bool go = inside({id});
                finish(id);
                if(how == 1)
                    return go;
                if(how == 2)
                    throw Leave{};
                if(how == 3)
                    break;
            }
            break;
        }
        default: {
            // several in one scope: in reverse order
            const int id2 = ++next, id3 = ++next;
            xme::ScopedDelegate s1(Fn{id});
            std::optional<xme::ScopedDelegate<Fn>> s2;
            s2.emplace(Fn{id2});
            bool go = inside({id2, id});
            xme::ScopedDelegate s3([id3, n = 0]() mutable { calls.push_back(id3 + n++); });
            go = go && inside({id3, id2, id});
            finish(id3);
            expect.push_back(id2);
            expect.push_back(id);
            if(how == 1)
                return go;
            if(how == 2)
                throw Leave{};
        }
        }
        CHECK(calls == expect, "at the end of scope " << id);
        CHECK(calls.size() > before, "the end of a scope called nothing");
        return how != 1;
    }
};

SUB(scopes, 20000, 300000) {
    world.reset();
    calls.clear();
    Scopes s{c};
    bool thrown = false;
    for(u64 n = 1 + c.draw(3); n > 0; --n) {
        try {
            s.scope(0);
        }
        catch(const Leave&) {
            thrown = true;
        }
        if(calls != s.expect) {
            std::ostringstream os;
            os << "the functions called are";
            for(int i : calls)
                os << ' ' << i;
            os << ", expected";
            for(int i : s.expect)
                os << ' ' << i;
            fail(os.str());
        }
    }
    if(thrown)
        c.label("left by an exception");
    world.check_empty();
    if(s.made >= 3 && s.left_early)
        c.nontrivial();
}

static_assert(!std::is_copy_assignable_v<xme::ScopedDelegate<Fn>> && !std::is_move_assignable_v<xme::ScopedDelegate<Fn>>);

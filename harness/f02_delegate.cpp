// F02: Delegate against a model of its target
#include "values.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <variant>
#include <xme/core/functional/delegate.hpp>

using el::world;

using Sig = long(int, const std::string&);
using D   = xme::Delegate<Sig>;

//! What every target computes from its number, the number of calls it has had, and the arguments
static long result(int kind, int id, int count, int a, const std::string& s) {
    u64 r = kind * 1'000'003ul + id * 10'007ul + count * 101ul + static_cast<u64>(a);
    for(unsigned char ch : s)
        r = r * 31 + ch;
    return static_cast<long>(r);
}
static const std::string* last_string;  // the very object passed
static int calls;

static long enter(int kind, int id, int count, int a, const std::string& s) {
    ++calls;
    last_string = &s;
    return result(kind, id, count, a, s);
}

static long fn0(int a, const std::string& s) { return enter(0, 0, 0, a, s); }
static long fn1(int a, const std::string& s) { return enter(0, 1, 0, a, s); }
static long fn2(int a, const std::string& s) { return enter(0, 2, 0, a, s); }
static long fn_noexcept(int a, const std::string& s) noexcept { return enter(0, 3, 0, a, s); }
using Fn = long (*)(int, const std::string&);
static Fn fns[] = {fn0, fn1, fn2, fn_noexcept};

//! Fits in a pointer and is trivially copyable
struct Small {
    short id;
    mutable short count = 0;
    long operator()(int a, const std::string& s) const { return enter(1, id, count++, a, s); }
};
//! Trivially copyable, with alignment and size of a pointer pair
struct Exact {
    long id;
    long count = 0;
    long operator()(int a, const std::string& s) { return enter(2, static_cast<int>(id), static_cast<int>(count++), a, s); }
};
struct Large {
    int pad[20];
    int count = 0;
    explicit Large(int id) {
        for(int i = 0; i < 20; ++i)
            pad[i] = id + i;
    }
    long operator()(int a, const std::string& s) {
        for(int i = 0; i < 20; ++i)
            if(pad[i] != pad[0] + i)
                return -1;
        return enter(3, pad[0], count++, a, s);
    }
};
struct alignas(64) Aligned {
    int id;
    int count = 0;
    explicit Aligned(int i) : id(i) {}
    long operator()(int a, const std::string& s) {
        if(reinterpret_cast<std::uintptr_t>(this) % 64)
            return -1;
        return enter(4, id, count++, a, s);
    }
};
//! Owns memory, and isn't trivially copyable though small
struct Owner {
    std::shared_ptr<int> id;
    int count = 0;
    explicit Owner(int i) : id(std::make_shared<int>(i)) {}
    long operator()(int a, const std::string& s) { return enter(5, *id, count++, a, s); }
};
struct SmallOwner {
    std::string text;
    explicit SmallOwner(int i) : text(std::to_string(i) + std::string(i % 40, 'x')) {}
    long operator()(int a, const std::string& s) const { return enter(6, std::atoi(text.c_str()), 0, a, s); }
};
struct SelfRef {
    int id, count = 0;
    const SelfRef* self;
    explicit SelfRef(int i) : id(i), self(this) {}
    SelfRef(const SelfRef& o) : id(o.id), count(o.count), self(this) {}
    SelfRef(SelfRef&& o) noexcept : id(o.id), count(o.count), self(this) {}
    long operator()(int a, const std::string& s) { return self == this ? enter(7, id, count++, a, s) : -1; }
};
//! Looks different according to how it is called
struct Overloads {
    int id;
    long operator()(long a, const std::string& s) = delete;
    long operator()(int& a, std::string& s) = delete;
    long operator()(int&& a, const std::string& s) { return enter(8, id, 0, a, s); }
};

struct Model {
    enum K { none, fn, small, exact, large, aligned, owner, small_owner, self_ref, overloads, lambda, counting_lambda, kinds } k = none;
    int id = 0, count = 0;
    static constexpr int number[] = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
    bool counts() const { return k == small || k == exact || k == large || k == aligned || k == owner || k == self_ref || k == counting_lambda; }
};

static auto make_lambda(int id) {
    return [id](int a, const std::string& s) { return enter(9, id, 0, a, s); };
}
static auto make_counting_lambda(int id) {
    return [id, count = 0, pad = std::string("x")](int a, const std::string& s) mutable { return enter(10, id, count++, a, s); };
}
using Lambda         = decltype(make_lambda(0));
using CountingLambda = decltype(make_counting_lambda(0));

//! Calls use(target of that kind)
template<typename F>
static void with_target(Model::K k, int id, F&& use) {
    switch(k) {
    case Model::fn: return use(fns[id % 4]);
    case Model::small: return use(Small{static_cast<short>(id)});
    case Model::exact: return use(Exact{id});
    case Model::large: return use(Large(id));
    case Model::aligned: return use(Aligned(id));
    case Model::owner: return use(Owner(id));
    case Model::small_owner: return use(SmallOwner(id));
    case Model::self_ref: return use(SelfRef(id));
    case Model::overloads: return use(Overloads{id});
    case Model::lambda: return use(make_lambda(id));
    case Model::counting_lambda: return use(make_counting_lambda(id));
    default: return;
    }
}

struct Machine {
    static constexpr int N = 4;
    std::unique_ptr<D> d[N];  // where they are doesn't matter
    Model m[N];
    int next = 0;

    void observe(Case& c, int i, const char* what) {
        const D& x = *d[i];
        const Model& mod = m[i];
        CHECK(static_cast<bool>(x) == (mod.k != Model::none), what << ": Delegate " << i << (mod.k == Model::none ? " isn't empty" : " is empty"));
        CHECK((x ? true : false) == (mod.k != Model::none), what << ": wrong truth");
        {
            const Fn* h = x.handle<Fn>();
            CHECK((h != nullptr) == (mod.k == Model::fn), what << ": handle() of a function");
            CHECK(!h || *h == fns[mod.id], what << ": handle() gives another function");
        }
        auto one = [&]<typename F>(std::type_identity<F>, Model::K k, auto get) {
            const F* h = x.template handle<F>();
            CHECK((h != nullptr) == (mod.k == k), what << ": handle() of kind " << k << " of a Delegate of kind " << mod.k);
            if(h) {
                auto [id, count] = get(*h);
                CHECK(id == mod.id && (count == -1 || count == mod.count), what << ": handle() gives target " << id << " called " << count << " times, expected " << mod.id << " called " << mod.count);
            }
        };
        using P = std::pair<int, int>;
        one(std::type_identity<Small>{}, Model::small, [](const Small& f) { return P(f.id, f.count); });
        one(std::type_identity<Exact>{}, Model::exact, [](const Exact& f) { return P(f.id, f.count); });
        one(std::type_identity<Large>{}, Model::large, [](const Large& f) { return P(f.pad[0], f.count); });
        one(std::type_identity<Aligned>{}, Model::aligned, [](const Aligned& f) { return P(f.id, f.count); });
        one(std::type_identity<Owner>{}, Model::owner, [](const Owner& f) { return P(*f.id, f.count); });
        one(std::type_identity<SmallOwner>{}, Model::small_owner, [](const SmallOwner& f) { return P(std::atoi(f.text.c_str()), -1); });
        one(std::type_identity<SelfRef>{}, Model::self_ref, [](const SelfRef& f) { return P(f.self == &f ? f.id : -7, f.count); });
        one(std::type_identity<Overloads>{}, Model::overloads, [](const Overloads& f) { return P(f.id, -1); });
        const Lambda* l = x.handle<Lambda>();
        CHECK((l != nullptr) == (mod.k == Model::lambda), what << ": handle() of a lambda");
    }

    void call(Case& c, int i, const char* what) {
        const D& x = *d[i];
        const int a = Val<int>::make(c);
        const std::string s = Val<std::string>::make(c);
        const int before = calls;
        long r = 0;
        bool threw = false;
        try {
            r = c.draw(2) ? (*d[i])(a, s) : x(a, s);
        }
        catch(const std::bad_function_call&) {
            threw = true;
        }
        Model& mod = m[i];
        if(mod.k == Model::none) {
            CHECK(threw, what << ": calling an empty Delegate doesn't throw bad_function_call");
            CHECK(calls == before, what << ": calling an empty Delegate calls something");
            return;
        }
        CHECK(!threw, what << ": calling a Delegate that has a target throws bad_function_call");
        CHECK(calls == before + 1, what << ": one call made " << calls - before << " calls of targets");
        const long want = result(Model::number[mod.k], mod.id, mod.counts() ? mod.count : 0, a, s);
        CHECK(r == want, what << ": Delegate " << i << " did not call target " << mod.id << " of kind " << mod.k << " (called " << mod.count << " times before) with the arguments of the call");
        CHECK(last_string == &s, what << ": the argument passed by reference is another object");
        if(mod.counts())
            ++mod.count;
    }

    void run(Case& c) {
        for(int i = 0; i < N; ++i)
            d[i] = std::make_unique<D>();
        int n = 0, with = 0;
        c.begin_loop({4, 10, 25, 60});
        while(c.more()) {
            const int i = static_cast<int>(c.draw(N)), j = static_cast<int>(c.draw(N));
            D &x = *d[i], &y = *d[j];
            ++n;
            const Model::K k = static_cast<Model::K>(1 + c.draw(Model::kinds - 1));
            const u64 op = c.draw(13);
            const int id = k == Model::fn ? static_cast<int>(c.draw(4)) : ++next;
            switch(op) {
            case 0:  // assign a callable
            case 1:
                LOG(i << " = target " << id << " of kind " << k << " op " << op);
                with_target(k, id, [&](auto f) {
                    D* r;
                    if(op == 0)
                        r = &(x = std::move(f));
                    else {
                        r = &(x = f);
                        // independent of the original
                        f(1, "x");
                    }
                    CHECK(r == &x, "assignment doesn't return the Delegate");
                });
                m[i] = {k, id, 0};
                ++with;
                break;
            case 2:  // create from a callable
                LOG(i << " created with target " << id << " of kind " << k);
                with_target(k, id, [&](auto f) {
                    switch(c.draw(3)) {
                    case 0: d[i] = std::make_unique<D>(std::move(f)); break;
                    case 1:
                        d[i] = std::make_unique<D>(f);
                        f(1, "x");
                        break;
                    default: d[i] = std::make_unique<D>(std::as_const(f));
                    }
                });
                m[i] = {k, id, 0};
                ++with;
                break;
            case 3:
                LOG(i << " = copy of " << j);
                CHECK(&(x = std::as_const(y)) == &x, "copy assignment doesn't return the Delegate");
                m[i] = m[j];
                break;
            case 4:
                if(i != j) {
                    LOG(i << " = move of " << j);
                    CHECK(&(x = std::move(y)) == &x, "move assignment doesn't return the Delegate");
                    m[i] = m[j];
                    m[j] = {};
                    observe(c, j, "moved from");
                }
                break;
            case 5:
                LOG(i << " created as a copy of " << j);
                d[i] = std::make_unique<D>(std::as_const(*d[j]));
                m[i] = m[j];
                break;
            case 6:
                if(i != j) {
                    LOG(i << " created by moving " << j);
                    d[i] = std::make_unique<D>(std::move(*d[j]));
                    m[i] = m[j];
                    m[j] = {};
                    observe(c, j, "moved from");
                }
                break;
            case 7:
                LOG("swap " << i << ' ' << j);
                if(c.draw(3) == 0)
                    std::swap(x, y);
                else
                    x.swap(y);
                std::swap(m[i], m[j]);
                break;
            case 8:
                LOG(i << " = nullptr");
                CHECK(&(x = nullptr) == &x, "clearing doesn't return the Delegate");
                m[i] = {};
                break;
            case 9: {
                LOG(i << " = null function");
                Fn f = nullptr;
                if(c.draw(2))
                    x = f;
                else
                    d[i] = std::make_unique<D>(f);
                m[i] = {};
                break;
            }
            case 10:  // its own target, or another one's
                if(const Large* h = y.handle<Large>()) {
                    LOG(i << " = *handle of " << j);
                    x    = *h;
                    m[i] = m[j];
                }
                else if(const Small* h2 = y.handle<Small>()) {
                    LOG(i << " = *handle of " << j);
                    x    = *h2;
                    m[i] = m[j];
                }
                break;
            case 11: {  // a non const lvalue as the source
                LOG(i << " = copy of non const " << j);
                D copy(y);
                const Model keep = m[j];
                x    = copy;
                m[i] = keep;
                if(copy && c.draw(2))
                    copy(0, "");  // changes only the copy
                break;
            }
            default: LOG("call " << i); call(c, i, "call");
            }
            observe(c, i, "after an operation");
            observe(c, j, "after an operation (other)");
            if(c.draw(3) == 0)
                call(c, static_cast<int>(c.draw(N)), "after an operation");
        }
        for(int i = 0; i < N; ++i) {
            observe(c, i, "at the end");
            call(c, i, "at the end");
        }
        if(n >= 5 && with >= 2)
            c.nontrivial();
    }
};

static_assert(std::is_constructible_v<bool, xme::Delegate<int(int)>> && !std::is_convertible_v<xme::Delegate<int(int)>, bool>);
static_assert(!std::is_convertible_v<const xme::Delegate<void()>&, int>);
SUB(history, 8000, 120000) {
    Machine mach;
    mach.run(c);
}

// other signatures --------------------------------------------------------------------------------------------------

struct Object {
    int base, field;
    int add(int a) { return base += a; }
    int sum(int a) const { return base + a; }
    virtual int virt(int a) { return base * 2 + a; }
};
struct Derived : Object {
    int virt(int a) override { return base * 3 + a; }
};

static Mo add_one(Mo m) { return Mo(m.get() + 1); }
static int& choose(int& a, int& b) { return a < b ? a : b; }
static int seen;
static void note(int a) { seen = a; }

struct Cats {
    std::string* log;
    void operator()(int&, const int&, std::string&&, Tr t, Mo& m) const { *log = "ok " + std::to_string(t.get()) + " " + std::to_string(m.get()); }
    void operator()(const int&, const int&, const std::string&, Tr, const Mo&) const { *log = "const"; }
};

SUB(signatures, 8000, 100000) {
    world.reset();
    {
        const int a = static_cast<int>(c.draw(1000)), b = static_cast<int>(c.draw(1000));
        const std::string s = Val<std::string>::make(c);
        LOG(a << ' ' << b << ' ' << show(s));
        Object o;
        o.base = a, o.field = b;
        Derived der;
        der.base = a, der.field = b + 1;
        {
            // member functions
            xme::Delegate<int(Object&, int)> d(&Object::add);
            CHECK(d && d(o, b) == a + b && o.base == a + b, "a member function is called on another object or with another argument");
            o.base = a;
            d = &Object::sum;
            CHECK(d && d(o, b) == a + b && o.base == a, "a const member function");
            d = &Object::virt;
            CHECK(d(o, b) == a * 2 + b && d(der, b) == a * 3 + b, "a virtual function");
            using Mem = int (Object::*)(int);
            CHECK(d.handle<Mem>() && *d.handle<Mem>() == static_cast<Mem>(&Object::virt) && !d.handle<int (Object::*)(int) const>(), "handle() of a member function");
            auto copy = d;
            Mem null = nullptr;
            d = null;
            CHECK(!d && copy && copy(der, b) == a * 3 + b, "a null member function doesn't make the Delegate empty, or empties its copy");
            bool threw = false;
            try {
                d(o, b);
            }
            catch(const std::bad_function_call&) {
                threw = true;
            }
            CHECK(threw, "calling an empty Delegate doesn't throw");
            CHECK(!xme::Delegate<int(Object&, int)>(null), "a Delegate of a null member function isn't empty");
            xme::Delegate<int(const Object*, int)> p(&Object::sum);
            CHECK(p(&o, b) == a + b, "a member function through a pointer");
            xme::Delegate<int&(Object&)> f(&Object::field);
            CHECK(f && &f(o) == &o.field, "a data member");
            f(o) = 5;
            CHECK(o.field == 5 && der.field == b + 1, "writing a data member");
            int Object::*nf = nullptr;
            f = nf;
            CHECK(!f, "a null data member doesn't make the Delegate empty");
            xme::Delegate<int(Derived&, int)> dd(&Object::add);
            CHECK(dd(der, b) == a + b && der.base == a + b, "a member function of a base");
        }
        {
            // move-only arguments and results
            xme::Delegate<Mo(Mo)> d(add_one);
            CHECK(d(Mo(a)).get() == a + 1, "a move-only argument or result");
            d = [a](Mo m) { return Mo(m.get() - a); };
            CHECK(d(Mo(b)).get() == b - a, "a move-only argument or result of a lambda");
            xme::Delegate<int(Mo&&)> r([](Mo&& m) { return m.get(); });
            Mo m(b);
            CHECK(r(std::move(m)) == b && m.get() == b, "an rvalue reference argument is moved on the way");
        }
        {
            // references
            int x = a, y = b;
            xme::Delegate<int&(int&, int&)> d(choose);
            CHECK(&d(x, y) == (a < b ? &x : &y), "a reference result is another object");
            xme::Delegate<void(int)> v(note);
            seen = -1;
            v(a);
            CHECK(seen == a, "a function without result");
            // conversions of arguments and result
            xme::Delegate<double(short)> conv([](long z) { return static_cast<float>(z) / 2; });
            CHECK(conv(static_cast<short>(a)) == static_cast<float>(a) / 2, "conversions");
            xme::Delegate<std::string(const char*)> st([](std::string_view z) { return std::string(z) + "!"; });
            CHECK(st("abc") == "abc!", "conversion to a string_view");
        }
        {
            // each argument arrives with its type
            std::string log;
            int x = a;
            const int y = b;
            std::string moved = s;
            Mo m(b);
            xme::Delegate<void(int&, const int&, std::string&&, Tr, Mo&)> d(Cats{&log});
            d(x, y, std::move(moved), Tr(a), m);
            CHECK(log == "ok " + std::to_string(a) + " " + std::to_string(b), "the arguments arrive as " << log);
            CHECK(moved == s, "an rvalue reference is moved from on the way");
        }
        {
            // exceptions, recursion, Delegates in Delegates
            xme::Delegate<int(int)> d([&](int z) -> int { throw z + a; });
            int got = -1;
            try {
                d(b);
            }
            catch(int z) {
                got = z;
            }
            CHECK(got == a + b && d, "an exception of the target does not arrive");
            xme::Delegate<int(int)> fact;
            fact = [&fact](int z) { return z <= 1 ? 1 : (z * fact(z - 1)) % 10007; };
            int want = 1;
            for(int z = 2; z <= b % 20; ++z)
                want = z * want % 10007;
            CHECK(fact(b % 20) == want, "a recursive target");
            xme::Delegate<int(int)> inner([a](int z) { return z - a; });
            xme::Delegate<long(short)> outer(inner);
            inner = nullptr;
            CHECK(outer(static_cast<short>(b)) == b - a, "a Delegate as the target of another one");
            xme::Delegate<int()> none;
            CHECK(!none && !none.handle<int (*)()>(), "a new Delegate isn't empty");
            xme::Delegate<int()> nc(none), nm(std::move(none));
            CHECK(!nc && !nm && !none, "copies of an empty Delegate are not empty");
            nc.swap(nm);
            nc = nm;
            nc = std::move(nm);
            nc = nullptr;
            CHECK(!nc && !nm, "empty Delegates get a target");
        }
        {
            // deduction
            xme::Delegate d1(add_one);
            static_assert(std::is_same_v<decltype(d1), xme::Delegate<Mo(Mo)>>);
            xme::Delegate d2([a](int z, const std::string& t) { return a + z + t.size(); });
            static_assert(std::is_same_v<decltype(d2), xme::Delegate<std::size_t(int, const std::string&)>>);
            CHECK(d2(b, s) == a + b + s.size(), "a deduced Delegate");
            xme::Delegate d3([n = a]() mutable noexcept { return n++; });
            static_assert(std::is_same_v<decltype(d3), xme::Delegate<int()>>);
            CHECK(d3() == a && d3() == a + 1, "a deduced Delegate of a mutable lambda");
            xme::Delegate d4(d3);
            static_assert(std::is_same_v<decltype(d4), xme::Delegate<int()>>);
            CHECK(d4() == a + 2 && d3() == a + 2, "a copy shares the state of its source");
        }
        {
            // many arguments
            xme::Delegate<long(int, int, int, int, int, int, int)> d([](int p, int q, int r, int t, int u, int v, int w) {
                return p + 2l * q + 4l * r + 8l * t + 16l * u + 32l * v + 64l * w;
            });
            CHECK(d(a, b, 3, a, b, 5, 6) == a + 2l * b + 12 + 8l * a + 16l * b + 160 + 384, "seven arguments");
        }
        world.check();
    }
    world.check_empty();
    c.nontrivial();
}

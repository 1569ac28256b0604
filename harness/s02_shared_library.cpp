// S02: a SharedLibrary holds a library exactly as long as it should.
// Histories of operations on four objects and five small libraries (made by the driver in LIBDIR), replayed on a
// model of who holds what; which libraries are loaded is asked from the dynamic loader.
#include "pbt.hpp"
#include <xme/hal/shared_library.hpp>
#include <dlfcn.h>
#include <optional>
#include <string>
#include <string_view>
#include <utility>

using pbt::Case;
using xme::hal::SharedLibrary;

constexpr int libraries = 5, objects = 4;
// names that begin one another; library i has which() == i, common symbols and symbols of its own
static const char* const file[libraries] = {"libone.so", "libone.so2", "libone", "libother.so", "libone.so.1"};
static const char* const missing[]       = {"libnone.so", "libone.s", "notalibrary.so", "none/libone.so", "libother.so2"};

static std::string path(const char* name) { return std::string(LIBDIR "/") + name; }

static bool loaded(int i) {
    void* h = ::dlopen(path(file[i]).c_str(), RTLD_NOW | RTLD_NOLOAD);
    if(h)
        ::dlclose(h);
    return h != nullptr;
}

//! A view of s in a larger buffer
struct View {
    std::string buffer;
    std::string_view view;
    View(Case& c, const std::string& s) {
        const std::string before = c.draw(2) ? "" : "/";
        buffer                   = before + s + c.pick<const char*>({"", "2", ".1", "_2", "x"});
        view                     = std::string_view(buffer).substr(before.size(), s.size());
    }
};

struct World {
    Case& c;
    std::optional<SharedLibrary> o[objects];
    int held[objects] = {-1, -1, -1, -1};  // the library each object has
    void* outside[libraries] = {};         // references of the program itself
    int opened = 0, effective = 0;

    explicit World(Case& c_) : c(c_) {}
    ~World() {
        for(auto*& h : outside)
            if(h)
                ::dlclose(h);
    }

    int which(int i) {
        const auto f = std::as_const(*o[i]).proc_address<int (*)()>("which");
        return f ? f() : -1;
    }

    void check(const char* what) {
        bool need[libraries] = {};
        for(int i = 0; i < objects; ++i)
            if(o[i]) {
                CHECK(std::as_const(*o[i]).is_open() == (held[i] >= 0), what << ": is_open of object " << i << " is " << o[i]->is_open());
                if(held[i] >= 0)
                    need[held[i]] = true;
            }
        for(int l = 0; l < libraries; ++l)
            CHECK(loaded(l) == (need[l] || outside[l]), what << ": " << file[l] << (loaded(l) ? " is still" : " is not") << " loaded");
        for(int i = 0; i < objects; ++i)
            if(o[i] && held[i] >= 0)
                CHECK(which(i) == held[i], what << ": object " << i << " has library " << which(i) << " instead of " << held[i]);
    }

    void symbols(int i) {
        const SharedLibrary& x = *o[i];
        const int l            = held[i];
        LOG("symbols of object " << i);
        const std::string own = "own_" + std::to_string(l < 0 ? 0 : l), foreign = "own_" + std::to_string((l + 1) % libraries);
        const View which(c, "which"), which2(c, "which_2"), number(c, "number"), mine(c, own), theirs(c, foreign),
          none(c, c.pick<const char*>({"whic", "which_", "none", "malloc", "main", "dlsym", "strlen", "which_3"}));
        const auto f  = x.proc_address<int (*)()>(which.view);
        const auto f2 = x.proc_address<int (*)(int)>(which2.view);
        const auto n  = x.proc_address<const int*>(number.view);
        const auto m  = x.proc_address<const int*>(mine.view);
        CHECK((f != nullptr) == (l >= 0) && (f2 != nullptr) == (l >= 0) && (n != nullptr) == (l >= 0) && (m != nullptr) == (l >= 0),
              "symbols of object " << i << " with library " << l);
        if(l >= 0) {
            CHECK(f() == l && f2(3) == 100 * l + 3 && *n == 1000 + l && *m == 2000 + l, "values in library " << l);
            void* h        = ::dlopen(path(file[l]).c_str(), RTLD_NOW | RTLD_NOLOAD);
            void* expected = ::dlsym(h, "number");
            ::dlclose(h);
            CHECK(expected == n, "the address of number in " << file[l]);
        }
        CHECK(x.proc_address<void*>(theirs.view) == nullptr, foreign << " in object " << i << " with library " << l);
        CHECK(x.proc_address<void*>(none.view) == nullptr, none.view << " in object " << i << " with library " << l);
        ++effective;
    }

    void step() {
        const int a = static_cast<int>(c.draw(objects)), b = static_cast<int>(c.draw(objects));
        const int l = static_cast<int>(c.draw(libraries));
        switch(c.draw(12)) {
        case 0:
        case 1: {
            const View n(c, path(file[l]));
            if(!o[a] && c.draw(4)) {
                LOG("object " << a << " made with " << file[l]);
                o[a].emplace(n.view);
            }
            else {
                if(!o[a])
                    o[a].emplace(), held[a] = -1;
                LOG("object " << a << " opens " << file[l]);
                o[a]->open(n.view);
            }
            held[a] = l;
            ++opened;
            break;
        }
        case 2: {
            const View n(c, path(missing[c.draw(std::size(missing))]));
            LOG("object " << a << " opens " << n.view);
            if(!o[a]) {
                o[a].emplace(n.view);
                held[a] = -1;
            }
            else {
                o[a]->open(n.view);
                // what it had, if it still says so, or nothing
                if(!o[a]->is_open())
                    held[a] = -1;
            }
            ++effective;
            break;
        }
        case 3:
        case 4:
            if(o[a]) {
                LOG("object " << a << " closes");
                o[a]->close();
                effective += held[a] >= 0;
                held[a] = -1;
            }
            break;
        case 5:
            LOG("object " << a << " is destroyed");
            effective += held[a] >= 0;
            o[a].reset();
            held[a] = -1;
            break;
        case 6:
            if(o[a] && a != b) {
                LOG("object " << b << " made from object " << a);
                o[b].reset();
                o[b].emplace(std::move(*o[a]));
                held[b] = std::exchange(held[a], -1);
                ++effective;
            }
            break;
        case 7:
        case 8:
            if(o[a] && a == b) {
                LOG("object " << a << " = itself");
                SharedLibrary& same = *o[b];
                *o[a]               = std::move(same);
            }
            else if(o[a] && o[b]) {
                LOG("object " << a << " = object " << b);
                SharedLibrary& r = (*o[a] = std::move(*o[b]));
                CHECK(&r == &*o[a], "assignment returns its left side");
                const int old = held[a];
                held[a]       = held[b];
                // the library that was replaced is released, or kept by the object moved from
                held[b] = o[b]->is_open() ? old : -1;
                ++effective;
            }
            break;
        case 9:
            if(o[a] && o[b]) {
                LOG("swap objects " << a << " and " << b);
                std::swap(*o[a], *o[b]);
                if(a != b)
                    std::swap(held[a], held[b]);
                ++effective;
            }
            break;
        case 10:
            if(outside[l]) {
                LOG("the program lets go of " << file[l]);
                ::dlclose(std::exchange(outside[l], nullptr));
            }
            else {
                LOG("the program itself opens " << file[l]);
                outside[l] = ::dlopen(path(file[l]).c_str(), RTLD_NOW | RTLD_LOCAL);
            }
            break;
        default:
            if(!o[a]) {
                LOG("object " << a << " made");
                o[a].emplace();
                held[a] = -1;
            }
            symbols(a);
        }
        check("after the operation");
    }
};

SUB(history, 10000, 200000) {
    {
        World w(c);
        w.check("at first");
        c.begin_loop({4, 10, 25});
        while(c.more())
            w.step();
        if(w.opened >= 2 && w.effective >= 2)
            c.nontrivial();
        const bool release = c.draw(2);
        for(int i = 0; release && i < objects; ++i) {
            w.o[i].reset();
            w.held[i] = -1;
            w.check("after the end of an object");
        }
    }
    for(int l = 0; l < libraries; ++l)
        CHECK(!loaded(l), "at the end, " << file[l] << " is still loaded");
}

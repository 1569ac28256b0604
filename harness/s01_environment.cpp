// S01: environment variables read back what was set.
// Histories of sets and gets, with names and values that are views into larger buffers, replayed on a map.
#include "pbt.hpp"
#include <xme/hal/platform.hpp>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

using pbt::Case;
extern char** environ;

//! Names that begin, end or continue one another
static const std::string long_name(300, 'L'), longer_name = long_name + std::string(1000, 'L');
static const char* const names[] = {long_name.c_str(), longer_name.c_str(), "XMEVF_A",  "XMEVF_AB",    "XMEVF_ABC", "XMEVF_", "XMEVF",  "xmevf_a", "XMEVF_A_B", "XMEVF_B",
                                    "MEVF_A", "X", "XMEVF A B", "XMEVF_\xc3\xa9", "XMEVF.a-b", "XMEVF_ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"};

static std::string value(Case& c) {
    switch(c.draw(6)) {
    case 0: return "";
    case 1: return "1";
    case 2: return std::string(1 + c.draw(40), static_cast<char>('a' + c.draw(26)));
    case 3: {  // any bytes an environment can hold
        std::string s;
        const std::size_t n = c.draw(20);
        for(std::size_t i = 0; i < n; ++i)
            s += static_cast<char>(1 + c.draw(255));
        return s;
    }
    case 4: return c.pick<const char*>({"=", "a=b", "XMEVF_A=1", " ", "\n", "'\"$(x)`;", "/bin:/usr/bin"});
    default: return std::string(c.draw(5000), 'v');
    }
}

//! A view of s in a larger buffer, without a terminator behind it
struct View {
    std::string buffer;
    std::string_view view;
    View(Case& c, const std::string& s) {
        const std::string before = c.draw(2) ? "" : "XMEVF_";
        const std::string after  = c.pick<const char*>({"", "B", "=", "_more", "\x01"});
        buffer                   = before + s + after;
        view                     = std::string_view(buffer).substr(before.size(), s.size());
    }
};

//! Everything in the environment but the variables of the pool
static std::multiset<std::string> others() {
    std::multiset<std::string> r;
    for(char** e = environ; e && *e; ++e) {
        const std::string s = *e;
        const std::string n = s.substr(0, s.find('='));
        bool ours           = false;
        for(const char* p : names)
            ours = ours || n == p;
        if(!ours)
            r.insert(s);
    }
    return r;
}

SUB(history, 20000, 300000) {
    std::map<std::string, std::string> model;
    for(const char* n : names)
        ::unsetenv(n);
    ::setenv("ZZZ_XMEVF_A", "outside", 1);
    const auto before = others();
    int sets = 0, changed = 0;
    c.begin_loop({3, 8, 20});
    while(c.more()) {
        const std::string name = names[c.draw(std::size(names))];
        switch(c.draw(6)) {
        case 0:  // the program changes it by other means
            if(c.draw(2)) {
                LOG("setenv " << name);
                ::setenv(name.c_str(), "outside", 1);
                model[name] = "outside";
            }
            else {
                LOG("unsetenv " << name);
                ::unsetenv(name.c_str());
                model.erase(name);
            }
            break;
        case 1: {
            LOG("get " << name);
            const View n(c, name);
            const char* got = xme::hal::get_environment_variable(n.view);
            const auto it   = model.find(name);
            CHECK((got != nullptr) == (it != model.end()), "get of " << name << " is " << (got ? got : "null"));
            if(got)
                CHECK(it->second == got, "get of " << name << " is " << got << " instead of " << it->second);
            break;
        }
        default: {
            const std::string v = value(c);
            const View n(c, name), w(c, v);
            LOG("set " << name << " to " << v.size() << " characters: " << v.substr(0, 40));
            changed += model.count(name) && model[name] != v;
            xme::hal::set_environment_variable(n.view, w.view);
            if(v.empty())
                model.erase(name);
            else
                model[name] = v;
            ++sets;
        }
        }
        // all of them, by the function and by the C library; reading one doesn't disturb the others
        std::vector<std::pair<const char*, const char*>> all;
        for(const char* n : names) {
            const auto it   = model.find(n);
            const char* got = xme::hal::get_environment_variable(n);
            const char* raw = ::getenv(n);
            if(got && it != model.end())
                all.emplace_back(n, got);
            CHECK((got != nullptr) == (it != model.end()), n << " is " << (got ? got : "null"));
            CHECK((raw != nullptr) == (it != model.end()), n << " is " << (raw ? raw : "null") << " to getenv");
            if(got)
                CHECK(it->second == got && it->second == raw, n << " is " << got << " instead of " << it->second);
        }
        for(const auto& [n, got] : all)
            CHECK(model[n] == got, n << " became " << got << " by reading others");
    }
    CHECK(others() == before, "other variables changed");
    if(sets >= 2 && changed)
        c.nontrivial();
}

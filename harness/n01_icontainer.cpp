// N01: what IContainer gives to a container, against iterating it
#include "elements.hpp"
#include "iterators.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <ranges>
#include <xme/container/array.hpp>
#include <xme/container/icontainer.hpp>
#include <xme/container/linked_list.hpp>

using el::Elem;
using its::Rec;
using its::ssize;

template<typename T>
T value_of(int x) {
    if constexpr(std::is_same_v<T, Rec>)
        return Rec{x};
    else if constexpr(std::is_same_v<T, bool>)
        return x % 2 != 0;
    else if constexpr(std::is_arithmetic_v<T>)
        return static_cast<T>(x);
    else
        return Elem<T>::make(x);
}
template<typename T>
int read(const T& x) {
    if constexpr(std::is_same_v<T, Rec>)
        return x.key;
    else if constexpr(std::is_arithmetic_v<T>)
        return static_cast<int>(x);
    else
        return Elem<T>::read(x);
}

// Storages: how a container is iterated, and what it is filled from ------------------------------------------------
// begin, end: of an object that may be modified; cbegin, cend: of a constant one

//! Any container
template<typename Seq>
struct Of {
    using value_type = typename Seq::value_type;
    Seq s;
    void fill(const std::vector<int>& v) {
        if constexpr(requires { s.before_begin(); }) {
            auto i = s.before_begin();
            s.clear();
            for(int x : v)
                i = s.insert_after(i, make(x));
        }
        else {
            s.clear();
            for(int x : v)
                s.push_back(make(x));
        }
    }
    static value_type make(int x) {
        return value_of<value_type>(x);
    }
    auto begin() { return s.begin(); }
    auto end() { return s.end(); }
    auto cbegin() const { return s.begin(); }
    auto cend() const { return s.end(); }
};

//! A base of the containers below: room for the elements that they iterate in a part of
template<typename T>
struct Room {
    using value_type = T;
    std::vector<T> s;
    void fill(const std::vector<int>& v) {
        s.clear();
        s.push_back(make(125));
        for(int x : v)
            s.push_back(make(x));
        s.push_back(make(125));
    }
    static T make(int x) {
        return value_of<T>(x);
    }
    ssize size_() const { return static_cast<ssize>(s.size()) - 2; }
    T* first() { return s.data() + 1; }
    T* last() { return s.data() + 1 + size_(); }
    const T* first() const { return s.data() + 1; }
    const T* last() const { return s.data() + 1 + size_(); }
};
template<typename T>
struct Pointers : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return this->last(); }
    auto cbegin() const { return this->first(); }
    auto cend() const { return this->last(); }
};
//! Only iterated as something constant
template<typename T>
struct Constant : Room<T> {
    auto begin() const { return this->first(); }
    auto end() const { return this->last(); }
    auto cbegin() const { return this->first(); }
    auto cend() const { return this->last(); }
};
template<typename T>
struct Counted : Room<T> {
    auto begin() { return std::counted_iterator(this->first(), this->size_()); }
    auto end() { return std::default_sentinel; }
    auto cbegin() const { return std::counted_iterator(this->first(), this->size_()); }
    auto cend() const { return std::default_sentinel; }
};
struct Terminator {
    template<typename T>
    friend bool operator==(const T* p, Terminator) {
        return *p == value_of<T>(125);
    }
};
//! The end is only known by looking
template<typename T>
struct Terminated : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return Terminator{}; }
    auto cbegin() const { return this->first(); }
    auto cend() const { return Terminator{}; }
};
//! A constant one shows the first half
template<typename T>
struct Half : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return this->last(); }
    auto cbegin() const { return this->first(); }
    auto cend() const { return this->first() + this->size_() / 2; }
};
//! A constant one is seen in reverse
template<typename T>
struct Mirror : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return this->last(); }
    auto cbegin() const { return std::reverse_iterator(this->last()); }
    auto cend() const { return std::reverse_iterator(this->first()); }
};
//! Iterators that notice leaving the range
template<int Level>
struct Checked : Room<Rec> {
    auto begin() { return its::Bounds::size = size_(), its::Checked<Rec, false, Level>(first(), 0); }
    auto end() { return its::Checked<Rec, false, Level>(first(), size_()); }
    auto cbegin() const { return its::Bounds::size = size_(), its::Checked<Rec, true, Level>(first(), 0); }
    auto cend() const { return its::Checked<Rec, true, Level>(first(), size_()); }
};
//! Bidirectional, its length is known, and the sentinel isn't an iterator
struct CountedList : Of<std::list<std::string>> {
    auto begin() { return std::counted_iterator(s.begin(), static_cast<ssize>(s.size())); }
    auto end() { return std::default_sentinel; }
    auto cbegin() const { return std::counted_iterator(s.begin(), static_cast<ssize>(s.size())); }
    auto cend() const { return std::default_sentinel; }
};
//! Less is known of a constant one
template<typename T>
struct Weaker : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return this->last(); }
    auto cbegin() const { return this->first(); }
    auto cend() const { return Terminator{}; }
};
struct WeakerList : Of<std::list<std::string>> {
    auto begin() { return std::counted_iterator(s.begin(), static_cast<ssize>(s.size())); }
    auto end() { return std::default_sentinel; }
    auto cbegin() const { return s.begin(); }
    auto cend() const { return s.end(); }
};
struct WeakestConstant : Room<Rec> {
    auto begin() { return first(); }
    auto end() { return last(); }
    auto cbegin() const { return its::Bounds::size = size_(), its::Checked<Rec, true, 0>(first(), 0); }
    auto cend() const { return its::Checked<Rec, true, 0>(first(), size_()); }
};
//! More is known of a constant one
template<typename T>
struct Stronger : Room<T> {
    auto begin() { return this->first(); }
    auto end() { return Terminator{}; }
    auto cbegin() const { return this->first(); }
    auto cend() const { return this->last(); }
};
//! Values that exist while they are looked at
struct Computed : Room<int> {
    static int same(int x) { return x; }
    auto begin() { return view().begin(); }
    auto end() { return view().end(); }
    auto cbegin() const { return view().begin(); }
    auto cend() const { return view().end(); }
    std::ranges::iota_view<int, int> view() const { return std::views::iota(7, 7 + static_cast<int>(size_())); }
    void fill(std::vector<int>& v) {
        Room<int>::fill(v);
        for(std::size_t i = 0; i < v.size(); ++i)
            v[i] = 7 + static_cast<int>(i);
    }
};

// Containers ----------------------------------------------------------------------------------------------------------

//! What else is inherited from, so that IContainer isn't at the beginning of the object
struct Other {
    long something[3] = {1, 2, 3};
    virtual ~Other() = default;
};
enum Form { plain, second_base, mutable_only, private_storage };

template<typename Storage, Form F = plain>
class Mine;
template<typename Storage>
class Mine<Storage, plain> : public xme::IContainer<Mine<Storage, plain>>, public Storage {
public:
    using Storage::begin, Storage::end;
    auto begin() const { return Storage::cbegin(); }
    auto end() const { return Storage::cend(); }
};
template<typename Storage>
class Mine<Storage, second_base> : public Other, public Storage, public xme::IContainer<Mine<Storage, second_base>> {
public:
    using Storage::begin, Storage::end;
    auto begin() const { return Storage::cbegin(); }
    auto end() const { return Storage::cend(); }
};
template<typename Storage>
class Mine<Storage, mutable_only> : public xme::IContainer<Mine<Storage, mutable_only>> {
    Storage m;

public:
    using value_type = typename Storage::value_type;
    void fill(std::vector<int>& v) { m.fill(v); }
    auto begin() { return m.begin(); }
    auto end() { return m.end(); }
};
template<typename Storage>
class Mine<Storage, private_storage> : public xme::IContainer<Mine<Storage, private_storage>> {
    Storage m;

public:
    using value_type = typename Storage::value_type;
    void fill(std::vector<int>& v) { m.fill(v); }
    auto begin() { return m.begin(); }
    auto end() { return m.end(); }
    auto begin() const { return m.cbegin(); }
    auto end() const { return m.cend(); }
};
//! Iterated as constant only
template<typename Storage>
class Fixed : public xme::IContainer<Fixed<Storage>> {
    Storage m;

public:
    using value_type = typename Storage::value_type;
    void fill(std::vector<int>& v) { m.fill(v); }
    auto begin() const { return m.cbegin(); }
    auto end() const { return m.cend(); }
};

enum Offers : unsigned { index_ = 1, empty_ = 2, data_ = 4, size_ = 8, front_ = 16, back_ = 32 };
constexpr unsigned forward = empty_ | front_, bidirectional = forward | back_, random_ = bidirectional | index_ | size_, all = random_ | data_;

template<typename D>
constexpr unsigned offers = (requires(D& d) { d[0]; } ? index_ : 0u) | (requires(D& d) { d.empty(); } ? empty_ : 0u) | (requires(D& d) { d.data(); } ? data_ : 0u)
                            | (requires(D& d) { d.size(); } ? size_ : 0u) | (requires(D& d) { d.front(); } ? front_ : 0u) | (requires(D& d) { d.back(); } ? back_ : 0u);

//! An object gives what iterating it gives
template<unsigned What, typename D>
static void look(Case& c, D& d, const char* how) {
    using T = typename std::remove_const_t<D>::value_type;
    using R = decltype(*d.begin());
    constexpr bool refers = std::is_lvalue_reference_v<R>;
    static_assert((offers<D> & What) == What, "something isn't offered");
    static_assert((offers<D> & ~What) == 0, "something is offered that can't work");
    std::vector<int> v;
    std::vector<const void*> at;
    for(auto i = d.begin(); !(i == d.end()); ++i) {
        v.push_back(read<T>(*i));
        if constexpr(refers)
            at.push_back(std::addressof(*i));
        else
            at.push_back(nullptr);
    }
    const std::size_t n = v.size();
    auto same = [&](auto&& x, std::size_t i, const char* what) {
        static_assert(std::is_same_v<decltype(x), R> || std::is_same_v<decltype(x), R&&>);
        CHECK(read<T>(x) == v[i], what << " of " << how << " object of " << n << " elements is " << read<T>(x) << ", not " << v[i]);
        if constexpr(refers)
            CHECK(static_cast<const void*>(std::addressof(x)) == at[i], what << " of " << how << " object is another element");
    };
    if constexpr(What & empty_) {
        static_assert(std::is_same_v<decltype(d.empty()), bool>);
        CHECK(d.empty() == (n == 0), how << " object of " << n << " elements is " << (n ? "" : "not ") << "empty");
    }
    if constexpr(What & size_) {
        static_assert(std::is_same_v<decltype(d.size()), std::size_t>);
        CHECK(d.size() == n, "the size of " << how << " object of " << n << " elements is " << d.size());
        CHECK(std::ranges::size(d) == n);
    }
    if constexpr(What & data_) {
        static_assert(std::is_pointer_v<decltype(d.data())> && std::is_same_v<decltype(*d.data()), R>);
        CHECK(n == 0 || d.data() == at[0], "the data of " << how << " object of " << n << " elements isn't at the first");
        if constexpr(std::ranges::sized_range<D>)
            CHECK(d.data() == std::to_address(d.begin()));
    }
    if constexpr(What & front_) {
        static_assert(std::is_same_v<decltype(d.front()), R>);
        if(n)
            same(d.front(), 0, "front");
    }
    if constexpr(What & back_) {
        static_assert(std::is_same_v<decltype(d.back()), R>);
        if(n)
            same(d.back(), n - 1, "back");
    }
    if constexpr(What & index_) {
        static_assert(std::is_same_v<decltype(d[0]), R>);
        for(std::size_t i = 0; i < n; ++i)
            same(d[static_cast<ssize>(i)], i, "an element");
        // an index is what follows where the beginning is
        if(n) {
            const auto i = static_cast<ssize>(c.draw(n));
            same(d[i], static_cast<std::size_t>(i), "an element");
            same(d[static_cast<unsigned char>(i)], static_cast<std::size_t>(i), "an element");
        }
    }
    // as standard algorithms see it
    std::vector<int> w;
    std::ranges::for_each(d, [&](const T& x) { w.push_back(read<T>(x)); });
    CHECK(w == v);
}

//! What is offered by an object, and by a constant one
template<typename D, unsigned What, unsigned WhatConst>
static void gives(Case& c) {
    std::vector<int> v(c.draw(c.draw(6) ? 7 : 40));
    for(int& x : v)
        x = 1 + static_cast<int>(c.draw(100));
    LOG(v.size() << " elements");
    D d;
    d.fill(v);
    look<What>(c, d, "an");
    if constexpr(WhatConst)
        look<WhatConst>(c, std::as_const(d), "a constant");
    else
        static_assert(offers<const D> == 0);
    // written through what is given
    using T = typename D::value_type;
    if constexpr(std::is_assignable_v<decltype(*d.begin()), T>) {
        if(!v.empty()) {
            const std::size_t i = c.draw(v.size());
            const int x  = 1 + static_cast<int>(c.draw(100));
            const T value = value_of<T>(x);
            const u64 where = c.draw(4);
            std::size_t changed = v.size();
            if constexpr(What & front_)
                if(where == 0)
                    d.front() = value, changed = 0;
            if constexpr(What & back_)
                if(where == 1)
                    d.back() = value, changed = v.size() - 1;
            if constexpr(What & index_)
                if(where == 2)
                    d[static_cast<ssize>(i)] = value, changed = i;
            if constexpr(What & data_)
                if(where == 3)
                    d.data()[i] = value, changed = i;
            if(changed < v.size())
                v[changed] = read<T>(value);
            std::size_t q = 0;
            for(auto it = d.begin(); !(it == d.end()); ++it, ++q) {
                bool is = read<T>(*it) == v[q];
                if constexpr(std::is_same_v<T, bool>)
                    is = read<T>(*it) == v[q] % 2;
                CHECK(is, "element " << q << " after writing to " << changed << " in way " << where);
            }
            look<What>(c, d, "an");
        }
    }
    // filled again
    std::vector<int> u(c.draw(5), 3);
    d.fill(u);
    look<What>(c, d, "an");
    D e(d);
    look<What>(c, e, "a copied");
    if(v.size() > 1)
        c.nontrivial();
}
#define BOTH(name, Storage, Form, What) SUB_T(name, (gives<Mine<Storage, Form>, What, What>), 1500, 20000)
BOTH(vector_of_int, Of<std::vector<int>>, plain, all);
BOTH(vector_of_string, Of<std::vector<std::string>>, second_base, all);
BOTH(vector_of_bool, Of<std::vector<bool>>, private_storage, random_);
BOTH(string, Of<std::string>, private_storage, all);
BOTH(deque, Of<std::deque<int>>, second_base, random_);
BOTH(list, Of<std::list<std::string>>, plain, bidirectional);
BOTH(list_behind, Of<std::list<int>>, second_base, bidirectional);
BOTH(forward_list, Of<std::forward_list<int>>, plain, forward);
BOTH(linked_list, Of<xme::LinkedList<std::string>>, private_storage, forward);
BOTH(array, Of<xme::Array<std::string>>, private_storage, all);
BOTH(big, Of<std::deque<el::BigPod>>, plain, random_);
BOTH(pointers, Pointers<std::string>, plain, all);
BOTH(pointers_behind, Pointers<long>, second_base, all);
BOTH(terminated, Terminated<int>, private_storage, index_ | bidirectional | data_);
BOTH(checked_bidirectional, Checked<0>, private_storage, bidirectional);
BOTH(checked_random, Checked<1>, private_storage, random_);
BOTH(checked_unordered, Checked<2>, second_base, random_);
BOTH(counted, Counted<std::string>, plain, random_);
BOTH(counted_list, CountedList, private_storage, bidirectional | size_);
BOTH(computed, Computed, private_storage, random_);
SUB_T(half, (gives<Mine<Half<int>>, all, all>), 1500, 20000);
SUB_T(mirror, (gives<Mine<Mirror<std::string>, second_base>, all, random_>), 1500, 20000);
constexpr unsigned terminated_ = index_ | bidirectional | data_;
SUB_T(weaker, (gives<Mine<Weaker<int>>, all, terminated_>), 1500, 20000);
SUB_T(weaker_list, (gives<Mine<WeakerList, second_base>, bidirectional | size_, bidirectional>), 1500, 20000);
SUB_T(weakest_constant, (gives<Mine<WeakestConstant>, all, bidirectional>), 1500, 20000);
//! How many there are is then asked of the object as a constant
SUB_T(stronger, (gives<Mine<Stronger<int>, private_storage>, all, all>), 1500, 20000);
SUB_T(fixed_pointers, (gives<Fixed<Pointers<std::string>>, all, all>), 1500, 20000);
SUB_T(fixed_list, (gives<Fixed<Of<std::list<int>>>, bidirectional, bidirectional>), 1500, 20000);
SUB_T(mutable_vector, (gives<Mine<Of<std::vector<std::string>>, mutable_only>, all, 0>), 1500, 20000);
SUB_T(mutable_list, (gives<Mine<Of<std::list<int>>, mutable_only>, bidirectional, 0>), 1500, 20000);

//! What can be read once offers nothing
struct Once : xme::IContainer<Once> {
    const std::vector<int>* v;
    std::size_t* at;
    auto begin() const { return el::SinglePass<int>{v, at}; }
    auto end() const { return std::default_sentinel; }
};
static_assert(offers<Once> == 0 && offers<const Once> == 0);
//! Neither does what can't be iterated
struct Nothing : xme::IContainer<Nothing> {};
static_assert(offers<Nothing> == 0 && offers<const Nothing> == 0);

//! In constant expressions
struct Digits : xme::IContainer<Digits> {
    int d[4];
    constexpr Digits(int n) : d{n / 1000, n / 100 % 10, n / 10 % 10, n % 10} {}
    constexpr auto begin() { return d + 0; }
    constexpr auto end() { return d + 4; }
    constexpr auto begin() const { return d + 0; }
    constexpr auto end() const { return d + 4; }
};
constexpr int digits(int n) {
    Digits x(n);
    const Digits y(n);
    x.front() += y.back();
    x[1] += y[2];
    x.data()[2] += y.data()[1];
    x.back() += y.front();
    return x.empty() || y.empty() || x.size() != 4 || y.size() != 4 ? 0 : ((x[0] * 20 + x[1]) * 20 + x[2]) * 20 + x[3];
}
static_assert(digits(1234) == ((5 * 20 + 5) * 20 + 5) * 20 + 5 && digits(9876) == ((15 * 20 + 15) * 20 + 15) * 20 + 15);
static_assert(Digits(1234)[2] == 3 && Digits(4321).back() == 1 && sizeof(Digits) == sizeof(int[4]));

// Memory in which a range can start anywhere, and ends at memory that can't be touched
#pragma once
#include "pbt.hpp"
#include <memory>
#include <new>

namespace place {
using pbt::u64;

//! Pages between two that can't be accessed
struct Pages {
    static constexpr std::size_t page = 4096, size = 16 * page;
    unsigned char* base;
    Pages() {
        base = static_cast<unsigned char*>(
          mmap(nullptr, size + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if(base == MAP_FAILED)
            std::abort();
        mprotect(base, page, PROT_NONE);
        mprotect(base + page + size, page, PROT_NONE);
        base += page;
    }
};
inline Pages& pages() {
    static Pages p;
    return p;
}

//! Room for n objects of T, somewhere
template<typename T>
struct Spot {
    T* data;
    std::size_t before = 0, after = 0;  //!< accessible objects around it
    T* heap = nullptr;
    const char* name;

    Spot(pbt::Case& c, std::size_t n) {
        constexpr std::size_t room = Pages::size / sizeof(T);
        switch(c.draw(4)) {
        case 0:
            name = "in memory of its own";
            heap = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t{alignof(T)}));
            data = heap;
            break;
        case 1:
            name = "before memory that can't be accessed";
            data   = reinterpret_cast<T*>(pages().base + Pages::size) - n;
            // the end may not be aligned for T
            while(reinterpret_cast<std::uintptr_t>(data) % alignof(T))
                data = reinterpret_cast<T*>(reinterpret_cast<unsigned char*>(data) - 1);
            before = std::min<std::size_t>(room - n, 64);
            break;
        case 2:
            name = "after memory that can't be accessed";
            data  = reinterpret_cast<T*>(pages().base);
            after = std::min<std::size_t>(room - n, 64);
            break;
        default:
            name = "anywhere";
            before = 64;
            after  = 64;
            data   = reinterpret_cast<T*>(pages().base) + 64 + c.draw(64);
        }
    }
    Spot(const Spot&) = delete;
    ~Spot() {
        if(heap)
            ::operator delete(heap, std::align_val_t{alignof(T)});
    }
};

//! Lengths around the multiples of what fits in a register
template<typename T>
inline std::size_t length(pbt::Case& c) {
    const std::size_t lane = c.draw(2) ? (32 / sizeof(T) ? 32 / sizeof(T) : 1) : (16 / sizeof(T) ? 16 / sizeof(T) : 1);
    switch(c.draw(4)) {
    case 0: return c.draw(9);
    case 1: return c.draw(150);
    default: {
        const std::size_t base = lane * (1 + c.draw(6)), off = c.draw(6);
        return base + off >= 3 ? base + off - 3 : 0;
    }
    }
}
}  // namespace place

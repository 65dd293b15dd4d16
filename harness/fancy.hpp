// A checked fancy pointer: every dereference is checked against the block it was derived from; pointers of
// different blocks may not be subtracted or ordered.  The stored representation is an offset, so code that
// treats the pointer as an address, or copies its bytes into a raw pointer, does not survive.
#pragma once
#include "mon.hpp"
#include <boost/core/pointer_traits.hpp>
#include <iterator>
#include <map>
namespace mon {
struct FBlock { char* base; size_t bytes; bool live; };
// block 0: null; block 1: the whole address space, for addresses of objects that are not the allocator's
inline std::vector<FBlock>& fblocks() { static FBlock first[2] = {{0, 0, false}, {0, (size_t)-1 / 2, true}}; static std::vector<FBlock> v(first, first + 2); return v; }
inline std::map<const char*, unsigned>& flive() { static std::map<const char*, unsigned> m; return m; }
inline uint64_t& fderefs() { static uint64_t n = 0; return n; }
inline uint64_t& fariths() { static uint64_t n = 0; return n; }
template <class T> struct ChkPtr {
    typedef T element_type; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T& reference; typedef ChkPtr pointer; typedef std::random_access_iterator_tag iterator_category;
    unsigned blk; std::ptrdiff_t off;               // blk 0: null
    ChkPtr() : blk(0), off(0) {}
    ChkPtr(T* p) : blk(0), off(0) { if (p) from_raw(p); }
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> ChkPtr(const ChkPtr<U>& o) : blk(o.blk), off(o.off) {}
    void from_raw(const volatile void* p) {
        const char* c = (const char*)p; std::map<const char*, unsigned>& m = flive(); std::map<const char*, unsigned>::iterator i = m.upper_bound(c);
        if (i != m.begin()) { --i; FBlock& b = fblocks()[i->second]; if (c <= b.base + b.bytes) { blk = i->second; off = c - b.base; return; } }
        blk = 1; off = (std::ptrdiff_t)c;
    }
    T* raw() const { return blk == 0 ? (T*)0 : blk == 1 ? (T*)(uintptr_t)off : (T*)((uintptr_t)fblocks()[blk].base + (uintptr_t)off); }
    T* checked(const char* how, bool one) const {
        ++fderefs();
        if (!blk) { viol("fancy", "null-deref", "%s through a null fancy pointer", how); return (T*)0; }
        FBlock& b = fblocks()[blk];
        if (!b.live) viol("fancy", "dead-block", "%s through a fancy pointer into a deallocated block", how);
        else if (off < 0 || (size_t)off + (one ? sizeof(T) : 0) > b.bytes) viol("fancy", "out-of-block", "%s at offset %ld of a block of %zu bytes", how, (long)off, b.bytes);
        return raw();
    }
    T& operator*() const { return *checked("access", true); }
    T* operator->() const { return blk ? checked("address", false) : (T*)0; }
    T& operator[](std::ptrdiff_t n) const { return *(*this + n); }
    static ChkPtr pointer_to(T& r) { return ChkPtr(&r); }
    explicit operator bool() const { return blk != 0; }
    bool operator!() const { return blk == 0; }
    ChkPtr& operator+=(std::ptrdiff_t n) { ++fariths(); if (!blk && n) viol("fancy", "null-arithmetic", "arithmetic on a null fancy pointer"); off += n * (std::ptrdiff_t)sizeof(T); return *this; }
    ChkPtr& operator-=(std::ptrdiff_t n) { return *this += -n; }
    ChkPtr& operator++() { return *this += 1; } ChkPtr& operator--() { return *this -= 1; } ChkPtr operator++(int) { ChkPtr t(*this); ++*this; return t; } ChkPtr operator--(int) { ChkPtr t(*this); --*this; return t; }
    ChkPtr operator+(std::ptrdiff_t n) const { ChkPtr t(*this); return t += n; } ChkPtr operator-(std::ptrdiff_t n) const { ChkPtr t(*this); return t -= n; }
    friend ChkPtr operator+(std::ptrdiff_t n, const ChkPtr& p) { return p + n; }
};
template <class T, class U> inline void same_block(const ChkPtr<T>& a, const ChkPtr<U>& b, const char* how) { if (a.blk != b.blk) viol("fancy", "cross-block", "%s of fancy pointers into different blocks", how); }
template <class T, class U> inline std::ptrdiff_t operator-(const ChkPtr<T>& a, const ChkPtr<U>& b) { ++fariths(); same_block(a, b, "difference"); return (a.off - b.off) / (std::ptrdiff_t)sizeof(T); }
template <class T, class U> inline bool operator==(const ChkPtr<T>& a, const ChkPtr<U>& b) { return a.blk == b.blk && a.off == b.off; }
template <class T, class U> inline bool operator!=(const ChkPtr<T>& a, const ChkPtr<U>& b) { return !(a == b); }
template <class T> inline bool operator==(const ChkPtr<T>& a, std::nullptr_t) { return !a.blk; }
template <class T> inline bool operator!=(const ChkPtr<T>& a, std::nullptr_t) { return a.blk; }
template <class T> inline bool operator==(std::nullptr_t, const ChkPtr<T>& a) { return !a.blk; }
template <class T> inline bool operator!=(std::nullptr_t, const ChkPtr<T>& a) { return a.blk; }
template <class T, class U> inline bool operator<(const ChkPtr<T>& a, const ChkPtr<U>& b) { same_block(a, b, "ordering"); return a.off < b.off; }
template <class T, class U> inline bool operator>(const ChkPtr<T>& a, const ChkPtr<U>& b) { return b < a; }
template <class T, class U> inline bool operator<=(const ChkPtr<T>& a, const ChkPtr<U>& b) { return !(b < a); }
template <class T, class U> inline bool operator>=(const ChkPtr<T>& a, const ChkPtr<U>& b) { return !(a < b); }
template <class T> struct FancyAlloc {
    typedef T value_type; typedef ChkPtr<T> pointer; typedef ChkPtr<const T> const_pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef FancyAlloc<U> other; };
    FancyAlloc() {} template <class U> FancyAlloc(const FancyAlloc<U>&) {}
    pointer allocate(size_t n) { maybe_throw(F_ALLOC); if (n > max_elems()) throw std::bad_alloc(); FBlock b = {(char*)std::malloc(n * sizeof(T) + 1), n * sizeof(T), true}; std::memset(b.base, 0xA5, b.bytes); fblocks().push_back(b); flive()[b.base] = (unsigned)fblocks().size() - 1; pointer p; p.blk = (unsigned)fblocks().size() - 1; p.off = 0; return p; }
    void deallocate(pointer p, size_t n) {
        if (p.blk < 2 || p.blk >= fblocks().size()) { viol("fancy", "dealloc-unknown", "deallocation of an unknown fancy pointer"); return; }
        FBlock& b = fblocks()[p.blk]; if (!b.live) { viol("fancy", "double-free", "block deallocated twice"); return; }
        if (p.off || n * sizeof(T) != b.bytes) viol("fancy", "dealloc-size", "deallocation at offset %ld of %zu bytes, the block has %zu", (long)p.off, n * sizeof(T), b.bytes);
        b.live = false; flive().erase(b.base); std::free(b.base); }
    template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); ++cnt().hook_construct; }
    template <class U> void destroy(U* p) { ++cnt().hook_destroy; p->~U(); }
    size_t max_size() const noexcept { return max_elems(); }
};
template <class T, class U> inline bool operator==(const FancyAlloc<T>&, const FancyAlloc<U>&) { return true; }
template <class T, class U> inline bool operator!=(const FancyAlloc<T>&, const FancyAlloc<U>&) { return false; }
} // namespace mon

// Source ranges for the range operations: every iterator category, with monitors on how they are used.
#pragma once
#include "mon.hpp"
#include <iterator>
#include <list>
#include <deque>
#include <forward_list>
#include <sstream>
#include <boost/circular_buffer.hpp>

namespace mon {

// ---------------------------------------------------------------- strict single-pass input range
// A stream of n values.  Every copy of the iterator shares the stream: reading through an outdated
// copy, reading past the end, or comparing after invalidation is a violation.
template <class T> struct Stream {
    const std::vector<int>* vals; size_t pos; uint64_t derefs; bool bad;
};
template <class T, class Tag, bool Prvalue> struct InIt {
    typedef Tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type;
    typedef typename std::conditional<Prvalue, T, const T&>::type reference; typedef const T* pointer;
    Stream<T>* s; size_t at; std::shared_ptr<T> cur;
    InIt() : s(0), at((size_t)-1) {}
    explicit InIt(Stream<T>* st) : s(st), at(st->pos) {}
    bool end() const { return !s || at == s->vals->size(); }
    bool stale() const { return s && at != s->pos; }
    void use(const char* how) const {
        if (stale() && !s->bad) { s->bad = true; viol("range", "input-stale", "%s through an outdated copy of a single-pass iterator (element %zu, stream is at %zu)", how, at, s->pos); }
    }
    reference operator*() const {
        use("read"); maybe_throw(F_SRC);
        if (end()) { viol("range", "input-past-end", "read past the end of a single-pass range"); std::abort(); }
        ++s->derefs;
        return fetch(std::integral_constant<bool, Prvalue>());
    }
    T fetch(std::true_type) const { return ET<T>::mk((*s->vals)[at]); }
    const T& fetch(std::false_type) const { const_cast<InIt*>(this)->cur.reset(new T(ET<T>::mk((*s->vals)[at]))); return *cur; }
    InIt& operator++() { use("increment"); maybe_throw(F_SRC);
        if (end()) { viol("range", "input-past-end", "increment past the end of a single-pass range"); std::abort(); }
        ++at; s->pos = at; cur.reset(); return *this; }
    // the old position stays readable once through the returned object, as for istream_iterator
    struct Post { std::shared_ptr<T> v; int x; reference operator*() const { return get(std::integral_constant<bool, Prvalue>()); }
        T get(std::true_type) const { return ET<T>::mk(x); } const T& get(std::false_type) const { return *v; } };
    Post operator++(int) {
        Post p; p.x = end() ? 0 : (*s->vals)[at];
        if (!end() && !Prvalue) p.v.reset(new T(ET<T>::mk(p.x)));
        if (!end()) ++s->derefs;
        ++*this; return p; }
    friend bool operator==(const InIt& a, const InIt& b) { a.use("comparison"); b.use("comparison"); return a.end() == b.end(); }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};
struct derived_input_tag : std::input_iterator_tag {};

// ---------------------------------------------------------------- strict forward range over an array of T
template <class T> struct FwSrc { const T* b; const T* e; bool bad; };
template <class T> struct FwIt {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type;
    typedef const T& reference; typedef const T* pointer;
    FwSrc<T>* s; const T* p;
    FwIt() : s(0), p(0) {}
    FwIt(FwSrc<T>* src, const T* q) : s(src), p(q) {}
    reference operator*() const { maybe_throw(F_SRC); if (p >= s->e || p < s->b) { viol("range", "forward-out-of-range", "read outside the source range"); std::abort(); } return *p; }
    pointer operator->() const { return &**this; }
    FwIt& operator++() { if (p >= s->e) { viol("range", "forward-past-end", "increment past the end of the source range"); std::abort(); } ++p; return *this; }
    FwIt operator++(int) { FwIt r(*this); ++*this; return r; }
    friend bool operator==(const FwIt& a, const FwIt& b) { return a.p == b.p; }
    friend bool operator!=(const FwIt& a, const FwIt& b) { return a.p != b.p; }
};
// strict random access range: every position stays inside [b, e]
template <class T> struct RaIt {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type;
    typedef const T& reference; typedef const T* pointer;
    FwSrc<T>* s; std::ptrdiff_t i;
    RaIt() : s(0), i(0) {}
    RaIt(FwSrc<T>* src, std::ptrdiff_t k) : s(src), i(k) {}
    void in(const char* how) const { if (s && (i < 0 || i > s->e - s->b)) { viol("range", "random-out-of-range", "%s leaves the source range", how); std::abort(); } }
    reference operator*() const { maybe_throw(F_SRC); if (i < 0 || i >= s->e - s->b) { viol("range", "random-read", "read outside the source range"); std::abort(); } return s->b[i]; }
    pointer operator->() const { return &**this; }
    reference operator[](std::ptrdiff_t n) const { return *(*this + n); }
    RaIt& operator++() { ++i; in("increment"); return *this; }
    RaIt operator++(int) { RaIt r(*this); ++*this; return r; }
    RaIt& operator--() { --i; in("decrement"); return *this; }
    RaIt operator--(int) { RaIt r(*this); --*this; return r; }
    RaIt& operator+=(std::ptrdiff_t n) { i += n; in("advance"); return *this; }
    RaIt& operator-=(std::ptrdiff_t n) { i -= n; in("advance"); return *this; }
    friend RaIt operator+(RaIt a, std::ptrdiff_t n) { return a += n; }
    friend RaIt operator+(std::ptrdiff_t n, RaIt a) { return a += n; }
    friend RaIt operator-(RaIt a, std::ptrdiff_t n) { return a -= n; }
    friend std::ptrdiff_t operator-(const RaIt& a, const RaIt& b) { return a.i - b.i; }
    friend bool operator==(const RaIt& a, const RaIt& b) { return a.i == b.i; }
    friend bool operator!=(const RaIt& a, const RaIt& b) { return a.i != b.i; }
    friend bool operator<(const RaIt& a, const RaIt& b) { return a.i < b.i; }
    friend bool operator>(const RaIt& a, const RaIt& b) { return a.i > b.i; }
    friend bool operator<=(const RaIt& a, const RaIt& b) { return a.i <= b.i; }
    friend bool operator>=(const RaIt& a, const RaIt& b) { return a.i >= b.i; }
};

enum RangeKind { RK_INPUT = 0, RK_FORWARD, RK_RANDOM, RK_LIST, RK_PTR, RK_CPTR, RK_MOVE, RK_CB, RK_DERIVED, RK_REVERSE,
                 RK_INTS, RK_DEQUE, RK_INPUT_RV, RK_SO, RK_ISTREAM, RK_COUNT };
inline const char* range_name(int k) {
    static const char* n[] = {"input", "forward", "random", "list", "pointer", "const-pointer", "move-iterator", "circular_buffer", "derived-input-tag",
                              "reverse", "ints", "deque", "input-rvalue", "space_optimized", "istream"};
    return k >= 0 && k < RK_COUNT ? n[k] : "?";
}
inline bool single_pass(int k) { return k == RK_INPUT || k == RK_DERIVED || k == RK_INPUT_RV || k == RK_ISTREAM; }

#ifndef CFG_KINDS_MASK
#define CFG_KINDS_MASK ((1u << RK_COUNT) - 1)
#endif
template <class T> inline bool kind_ok(int k) {
    if (!((CFG_KINDS_MASK >> k) & 1)) return false;
    if (!ET<T>::copyable) return k == RK_MOVE || k == RK_INPUT_RV;
    if (k == RK_INTS || k == RK_ISTREAM) return std::is_convertible<int, T>::value;
    return true;
}
template <unsigned K, class T> struct KindOn { enum { value = ((CFG_KINDS_MASK >> K) & 1) && (ET<T>::copyable || K == RK_MOVE || K == RK_INPUT_RV)
    && ((K != RK_INTS && K != RK_ISTREAM) || std::is_convertible<int, T>::value) }; };

template <class T> struct SrcArray {        // array of T built from values (move-only friendly)
    std::vector<T> v;
    explicit SrcArray(const std::vector<int>& x) { v.reserve(x.size() + 1); for (int i : x) v.push_back(ET<T>::mk(i)); }
    T* b() { return v.data(); } T* e() { return v.data() + v.size(); }
};
struct RangeUse { bool stream; size_t consumed; uint64_t derefs; bool bad; };
inline std::vector<char>& moved_out() { static std::vector<char> v; return v; }   // move iterators: which source elements were moved from
template <class T> inline typename std::enable_if<std::is_base_of<ElemCore, T>::value, bool>::type was_moved(const T& e) { return e.v == MOVED; }
template <class T> inline typename std::enable_if<!std::is_base_of<ElemCore, T>::value, bool>::type was_moved(const T&) { return false; }
inline RangeUse& last_range() { static RangeUse u; return u; }

template <class T> struct StreamGuard { Stream<T>* s; ~StreamGuard() { RangeUse u = {true, s->pos, s->derefs, s->bad}; last_range() = u; } };

// calls f(first, last) with iterators of the given kind over vals
template <class T, class F> void with_range(int kind, const std::vector<int>& vals, F f) {
    RangeUse none = {false, 0, 0, false}; last_range() = none;
#define MON_KIND(K, ...) case K: if constexpr (KindOn<K, T>::value) { __VA_ARGS__ } break;
    switch (kind) {
    MON_KIND(RK_INPUT, Stream<T> st = {&vals, 0, 0, false}; StreamGuard<T> g = {&st}; typedef InIt<T, std::input_iterator_tag, false> I; f(I(&st), I());)
    MON_KIND(RK_DERIVED, Stream<T> st = {&vals, 0, 0, false}; StreamGuard<T> g = {&st}; typedef InIt<T, derived_input_tag, false> I; f(I(&st), I());)
    MON_KIND(RK_INPUT_RV, Stream<T> st = {&vals, 0, 0, false}; StreamGuard<T> g = {&st}; typedef InIt<T, std::input_iterator_tag, true> I; f(I(&st), I());)
    MON_KIND(RK_FORWARD, SrcArray<T> a(vals); FwSrc<T> s = {a.b(), a.e(), false}; f(FwIt<T>(&s, a.b()), FwIt<T>(&s, a.e()));)
    MON_KIND(RK_RANDOM, SrcArray<T> a(vals); FwSrc<T> s = {a.b(), a.e(), false}; f(RaIt<T>(&s, 0), RaIt<T>(&s, (std::ptrdiff_t)vals.size()));)
    MON_KIND(RK_LIST, std::list<T> l; for (int x : vals) l.push_back(ET<T>::mk(x)); f(l.begin(), l.end());)
    MON_KIND(RK_PTR, SrcArray<T> a(vals); f(a.b(), a.e());)
    MON_KIND(RK_CPTR, SrcArray<T> a(vals); f((const T*)a.b(), (const T*)a.e());)
    MON_KIND(RK_MOVE, SrcArray<T> a(vals); moved_out().clear(); f(std::make_move_iterator(a.b()), std::make_move_iterator(a.e()));
        for (T& e : a.v) moved_out().push_back(was_moved(e));)
    MON_KIND(RK_REVERSE, std::vector<int> r(vals.rbegin(), vals.rend()); SrcArray<T> a(r); f(a.v.rbegin(), a.v.rend());)
    MON_KIND(RK_CB, boost::circular_buffer<T> cb(vals.size() + 2); for (size_t i = 0; i < vals.size() / 2 + 2; ++i) { cb.push_back(ET<T>::mk(7)); cb.pop_front(); }
        for (int x : vals) cb.push_back(ET<T>::mk(x)); f(cb.begin(), cb.end());)
    MON_KIND(RK_SO, boost::circular_buffer_space_optimized<T> cb(vals.size() + 2); for (int x : vals) cb.push_back(ET<T>::mk(x));
        const boost::circular_buffer_space_optimized<T>& k = cb; f(k.begin(), k.end());)
    MON_KIND(RK_INTS, f(vals.begin(), vals.end());)
    MON_KIND(RK_DEQUE, std::deque<T> d; for (int x : vals) d.push_back(ET<T>::mk(x)); f(d.begin(), d.end());)
    MON_KIND(RK_ISTREAM, std::ostringstream o; for (int x : vals) o << x << ' '; std::istringstream is(o.str()); f(std::istream_iterator<int>(is), std::istream_iterator<int>());)
    default: break;
    }
}

} // namespace mon

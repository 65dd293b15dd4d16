// A C++98/03 program: seeded histories of the common interface with a reference sequence of their own.  Every
// observation goes into a digest per history, which must be the same in every build configuration.
// No iostream, no exceptions out of the program; also run under MemorySanitizer and valgrind.
#include <boost/circular_buffer.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <iterator>
#ifdef BOOST_ENABLE_ASSERT_HANDLER
static int g_asserts = 0; static char g_assert_text[300];
namespace boost { void assertion_failed(char const* e, char const* f, char const*, long l) { if (!g_asserts++) std::snprintf(g_assert_text, sizeof g_assert_text, "%.180s at line %ld", e, l); (void)f; }
void assertion_failed_msg(char const* e, char const* m, char const* f, char const* fn, long l) { (void)m; assertion_failed(e, f, fn, l); } }
#endif
#ifdef BOOST_NO_EXCEPTIONS
namespace boost { void throw_exception(std::exception const&) { std::abort(); } }
#include <boost/throw_exception.hpp>
namespace boost { void throw_exception(std::exception const&, boost::source_location const&) { std::abort(); } }
#endif
typedef unsigned long long u64;
static u64 g_dig = 0; static u64 n_obs = 0, n_ops = 0, n_hist = 0; static int n_viol = 0; static char g_case[160]; static char g_op[160]; static bool g_bad = false;
static void dig(u64 x) { g_dig ^= x + 0x9E3779B97F4A7C15ull + (g_dig << 6) + (g_dig >> 2); g_dig *= 0xff51afd7ed558ccdull; g_dig ^= g_dig >> 32; ++n_obs; }
static void viol(const char* key, const char* msg) { g_bad = true; if (++n_viol > 20) return; std::printf("{\"t\":\"viol\",\"tag\":\"trace\",\"key\":\"%s\",\"case\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\"}\n", key, g_case, g_op, msg); std::fflush(stdout); }
struct Rng { u64 s; explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 12345) { next(); next(); } u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } size_t below(size_t n) { return n ? (size_t)((next() >> 11) % n) : 0; } bool chance(unsigned p) { return below(100) < p; } };
// an allocator of the C++98 kind; what is held is an observation
static long g_held = 0, g_blocks = 0;
template <class T> struct Al {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    template <class U> struct rebind { typedef Al<U> other; };
    int id; Al(int i = 0) : id(i) {} template <class U> Al(const Al<U>& o) : id(o.id) {}
    pointer address(reference x) const { return &x; } const_pointer address(const_reference x) const { return &x; }
    pointer allocate(size_type n, const void* = 0) { g_held += (long)n; ++g_blocks; return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(pointer p, size_type n) { g_held -= (long)n; --g_blocks; std::free(p); }
    size_type max_size() const { return (size_type)-1 / sizeof(T); }
    void construct(pointer p, const T& v) { ::new ((void*)p) T(v); }
    template <class U> void destroy(U* p) { p->~U(); (void)p; }
};
template <class T, class U> bool operator==(const Al<T>& a, const Al<U>& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(const Al<T>& a, const Al<U>& b) { return a.id != b.id; }
// an element with a lifetime and memory of its own
static long g_live = 0;
struct El { int* p; El() : p(new int(0)) { ++g_live; } El(int x) : p(new int(x)) { ++g_live; } El(const El& o) : p(new int(*o.p)) { ++g_live; } El& operator=(const El& o) { *p = *o.p; return *this; } ~El() { --g_live; delete p; } };
inline bool operator==(const El& a, const El& b) { return *a.p == *b.p; } inline bool operator<(const El& a, const El& b) { return *a.p < *b.p; }
struct Pod { int a; short b; char c; double d; };
inline bool operator==(const Pod& x, const Pod& y) { return x.a == y.a; } inline bool operator<(const Pod& x, const Pod& y) { return x.a < y.a; }
static int get(int x) { return x; } static int get(const El& e) { return *e.p; } static int get(const Pod& e) { return e.a == 0 ? (e.b || e.c || e.d != 0 ? -7 : 0) : (e.b == (short)e.a && e.c == (char)e.a && e.d == e.a * 0.5 ? e.a : -7); } static int get(unsigned char x) { return x; }
template <class T> struct Mk { static T mk(int x) { return T(x); } static int norm(int x) { return x; } };
template <> struct Mk<unsigned char> { static unsigned char mk(int x) { return (unsigned char)x; } static int norm(int x) { return (unsigned char)x; } };
template <> struct Mk<Pod> { static Pod mk(int x) { Pod p; std::memset(&p, 0, sizeof p); p.a = x; p.b = (short)x; p.c = (char)x; p.d = x * 0.5; return p; } static int norm(int x) { return x; } };
// multi-pass source without random access (not std::list: its members live in a library MemorySanitizer does not see)
template <class T> struct BiIt { typedef std::bidirectional_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const std::vector<T>* v; size_t k; BiIt() : v(0), k(0) {} BiIt(const std::vector<T>* x, size_t y) : v(x), k(y) {}
    reference operator*() const { return (*v)[k]; } pointer operator->() const { return &(*v)[k]; } BiIt& operator++() { ++k; return *this; } BiIt operator++(int) { BiIt t(*this); ++k; return t; } BiIt& operator--() { --k; return *this; } BiIt operator--(int) { BiIt t(*this); --k; return t; }
    friend bool operator==(const BiIt& a, const BiIt& b) { return a.k == b.k; } friend bool operator!=(const BiIt& a, const BiIt& b) { return a.k != b.k; } };
// single-pass source
template <class T> struct InIt { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const std::vector<T>* v; size_t* k; InIt() : v(0), k(0) {} InIt(const std::vector<T>* x, size_t* y) : v(x), k(y) {}
    bool end() const { return !v || *k >= v->size(); } reference operator*() const { return (*v)[*k]; } pointer operator->() const { return &(*v)[*k]; } InIt& operator++() { ++*k; return *this; }
    struct Proxy { T x; const T& operator*() const { return x; } }; Proxy operator++(int) { Proxy p = {(*v)[*k]}; ++*k; return p; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.end() == b.end(); } friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); } };

struct Mod { std::vector<int> v; size_t cap, mn; Mod() : cap(0), mn(0) {} size_t room() const { return cap - v.size(); }
    void ins(size_t i, const std::vector<int>& xs) { size_t n = xs.size(), keep = std::min(n, i + room()), over = n > room() ? std::min(i, n - room()) : 0; v.insert(v.begin() + (long)i, xs.end() - (long)keep, xs.end()); v.erase(v.begin(), v.begin() + (long)over); }
    void rins(size_t i, const std::vector<int>& xs) { size_t n = xs.size(), t = v.size() - i, keep = std::min(n, t + room()), over = n > room() ? std::min(t, n - room()) : 0; v.insert(v.begin() + (long)i, xs.begin(), xs.begin() + (long)keep); v.resize(v.size() - over); } };
template <class C> struct Kind { typedef typename C::capacity_type Cap; enum { so = 0 }; static Cap mk(size_t c, size_t) { return c; } static void eb(C& c, size_t n) { c.erase_begin(n); } static void ee(C& c, size_t n) { c.erase_end(n); } static size_t mn(const C&) { return 0; } static C* fill(size_t n, const typename C::value_type& x, const typename C::allocator_type& a) { return new C(n, x, a); } };
template <class T, class A> struct Kind<boost::circular_buffer_space_optimized<T, A> > { typedef boost::circular_buffer_space_optimized<T, A> C; typedef typename C::capacity_type Cap; enum { so = 1 }; static Cap mk(size_t c, size_t m) { return Cap(c, m); }
    static void eb(C& c, size_t n) { c.erase(c.begin(), c.begin() + (long)n); } static void ee(C& c, size_t n) { c.erase(c.end() - (long)n, c.end()); } static size_t mn(const C& c) { return c.capacity().min_capacity(); } static C* fill(size_t n, const typename C::value_type& x, const typename C::allocator_type& a) { return new C(Cap(n), x, a); } };
#define RANGE(F) do { if (kd == 0) { size_t kk = 0; InIt<T> f(&src, &kk), l; F; } else if (kd == 1) { BiIt<T> f(&src, 0), l(&src, src.size()); F; } else if (kd == 2) { const T* f = src.empty() ? 0 : &src[0]; const T* l = f + src.size(); F; } else { typename std::vector<T>::reverse_iterator f = rsrc.rbegin(), l = rsrc.rend(); F; } } while (0)
template <class C> struct H {
    typedef typename C::value_type T; typedef Kind<C> K; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef Al<T> A;
    C* c[2]; Mod m[2]; Rng r; int nv; H(u64 seed) : r(seed), nv(1) { c[0] = new C(K::mk(0, 0), A(1)); c[1] = new C(K::mk(0, 0), A(2)); } ~H() { delete c[0]; delete c[1]; }
    int val() { int x = Mk<T>::norm(nv); nv = nv % 30000 + 1; if (!x) return val(); return x; }
    void obs(int i) {
        C& x = *c[i]; const C& k = x; const Mod& d = m[i]; size_t n = d.v.size();
        dig(k.size()); dig((size_t)k.capacity()); dig(k.empty() + 2 * k.full()); dig(k.reserve()); dig(K::mn(k));
        if (k.size() != n || (size_t)k.capacity() != d.cap || K::mn(k) != d.mn) { viol("state", "size, capacity or minimum capacity differs from the specification"); return; }
        for (size_t q = 0; q < n; ++q) { int g = get(k[q]); dig((u64)(unsigned)g); if (g != d.v[q]) { viol("sequence", "contents differ from the specification"); return; } }
        size_t q = 0; for (CIt it = k.begin(); it != k.end(); ++it, ++q) if (q >= n || get(*it) != d.v[q]) { viol("iteration", "iteration differs from indexing"); return; }
        for (typename C::reverse_iterator it = x.rbegin(); it != x.rend(); ++it) { dig((u64)(unsigned)get(*it)); }
        typename C::const_array_range a = k.array_one(), b = k.array_two(); if (a.second + b.second != n) { viol("arrays", "the two arrays do not hold size() elements"); return; }
        for (size_t z = 0; z < a.second; ++z) dig((u64)(unsigned)get(a.first[z])); for (size_t z = 0; z < b.second; ++z) dig((u64)(unsigned)get(b.first[z])); if (k.is_linearized() != (b.second == 0)) viol("linearized", "is_linearized() and array_two() disagree");
        if (n) { dig((u64)(unsigned)get(k.front())); dig((u64)(unsigned)get(x.back())); dig((u64)(unsigned)get(*(x.begin() + (long)(n / 2)))); dig((u64)(x.end() - x.begin())); }
        int thrown = 0;
#ifdef BOOST_NO_EXCEPTIONS
        thrown = 1;
#else
        try { (void)k.at(n); } catch (const std::out_of_range&) { thrown = 1; }
#endif
        dig((u64)thrown); if (!thrown) viol("at", "at(size()) did not throw");
        if (!K::so) dig((u64)g_held);
        dig((u64)(*c[0] == *c[1]) + 2 * (*c[0] < *c[1]) + 4 * (*c[0] != *c[1]) + 8 * (*c[0] > *c[1]) + 16 * (*c[0] <= *c[1]) + 32 * (*c[0] >= *c[1]));
    }
    size_t pick(size_t n) { switch (r.below(4)) { case 0: return 0; case 1: return n; default: return r.below(n + 1); } }
    void step(size_t maxcap) {
        int i = r.chance(75) ? 0 : 1, j = 1 - i; C*& px = c[i]; C& x = *px; Mod& d = m[i]; size_t n = d.v.size(), cap = d.cap; int op = (int)r.below(54), kd = (int)r.below(4);
        size_t p = pick(n), cnt = r.chance(70) ? r.below(4) : r.below(cap + 3), nc = r.chance(60) ? std::max<size_t>(cap, 1) : pick(maxcap), mn = K::so && r.chance(50) ? pick(nc) : 0;
        std::vector<int> xs; std::vector<T> src; for (size_t q = 0; q < cnt; ++q) { xs.push_back(val()); src.push_back(Mk<T>::mk(xs.back())); } std::vector<T> rsrc(src.rbegin(), src.rend());
        std::sprintf(g_op, "operation %d on size %lu capacity %lu, position %lu, count %lu, range kind %d", op, (unsigned long)n, (unsigned long)cap, (unsigned long)p, (unsigned long)cnt, kd); ++n_ops;
        int v = val(); std::vector<int> one(1, v), same(cnt, v); T item = Mk<T>::mk(v); dig((u64)op);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: x.push_back(item); if (cap) { if (n == cap) d.v.erase(d.v.begin()); d.v.push_back(v); } break;
        case 5: case 6: case 7: x.push_front(item); if (cap) { if (n == cap) d.v.pop_back(); d.v.insert(d.v.begin(), v); } break;
        case 8: x.push_back(); if (cap) { if (n == cap) d.v.erase(d.v.begin()); d.v.push_back(0); } break;
        case 9: x.push_front(); if (cap) { if (n == cap) d.v.pop_back(); d.v.insert(d.v.begin(), 0); } break;
        case 10: case 11: if (n) { x.pop_back(); d.v.pop_back(); } break;
        case 12: case 13: if (n) { x.pop_front(); d.v.erase(d.v.begin()); } break;
        case 14: case 15: { It it = x.insert(x.begin() + (long)p, item); dig((u64)(it - x.begin())); d.ins(p, one); break; }
        case 16: { It it = x.rinsert(x.begin() + (long)p, item); dig((u64)(it - x.begin())); d.rins(p, one); break; }
        case 17: { It it = x.insert(x.begin() + (long)p); dig((u64)(it - x.begin())); d.ins(p, std::vector<int>(1, 0)); break; }
        case 18: { It it = x.rinsert(x.begin() + (long)p); dig((u64)(it - x.begin())); d.rins(p, std::vector<int>(1, 0)); break; }
        case 19: case 20: x.insert(x.begin() + (long)p, cnt, item); d.ins(p, same); break;
        case 21: x.rinsert(x.begin() + (long)p, cnt, item); d.rins(p, same); break;
        case 22: case 23: RANGE(x.insert(x.begin() + (long)p, f, l)); d.ins(p, xs); break;
        case 24: RANGE(x.rinsert(x.begin() + (long)p, f, l)); d.rins(p, xs); break;
        case 25: case 26: if (p < n) { It it = x.erase(x.begin() + (long)p); dig((u64)(it - x.begin())); d.v.erase(d.v.begin() + (long)p); } break;
        case 27: if (p < n) { It it = x.rerase(x.begin() + (long)p); dig((u64)(it - x.begin())); d.v.erase(d.v.begin() + (long)p); } break;
        case 28: { size_t e = p + r.below(n - p + 1); It it = x.erase(x.begin() + (long)p, x.begin() + (long)e); dig((u64)(it - x.begin())); d.v.erase(d.v.begin() + (long)p, d.v.begin() + (long)e); break; }
        case 29: { size_t e = p + r.below(n - p + 1); if (e == p) break; It it = x.rerase(x.begin() + (long)p, x.begin() + (long)e); dig((u64)(it - x.begin())); d.v.erase(d.v.begin() + (long)p, d.v.begin() + (long)e); break; }
        case 30: K::eb(x, p); d.v.erase(d.v.begin(), d.v.begin() + (long)p); break;
        case 31: K::ee(x, p); d.v.resize(n - p); break;
        case 32: if (r.chance(30)) { x.clear(); d.v.clear(); } break;
        case 33: { size_t t = r.chance(80) ? pick(cap) : pick(maxcap); x.resize(t, item); if (t > d.cap) d.cap = t; d.v.resize(t, v); break; }
        case 34: { size_t t = r.chance(80) ? pick(cap) : pick(maxcap); x.rresize(t, item); if (t > d.cap) d.cap = t; if (t > n) d.v.insert(d.v.begin(), t - n, v); else d.v.erase(d.v.begin(), d.v.end() - (long)t); break; }
        case 35: x.set_capacity(K::mk(nc, mn)); d.cap = nc; d.mn = mn; if (n > nc) d.v.resize(nc); break;
        case 36: x.rset_capacity(K::mk(nc, mn)); d.cap = nc; d.mn = mn; if (n > nc) d.v.erase(d.v.begin(), d.v.end() - (long)nc); break;
        case 37: x.assign(cnt, item); d.v = same; d.cap = cnt; d.mn = 0; break;
        case 38: { size_t t = std::min(cnt, nc); x.assign(K::mk(nc, mn), t, item); d.v.assign(t, v); d.cap = nc; d.mn = mn; break; }
        case 39: RANGE(x.assign(f, l)); d.v = xs; d.cap = cnt; d.mn = 0; break;
        case 40: { RANGE(x.assign(K::mk(nc, mn), f, l)); size_t t = std::min(cnt, nc); d.v.assign(xs.end() - (long)t, xs.end()); d.cap = nc; d.mn = mn; break; }
        case 41: { const C& y = *c[j]; x = y; d = m[j]; break; }
        case 42: { const C& y = x; x = y; break; }
        case 43: x.swap(*c[j]); std::swap(m[0], m[1]); break;
        case 44: swap(*c[0], *c[1]); std::swap(m[0], m[1]); break;
        case 45: { C* y = new C(x); dig(*y == x); delete px; px = y; break; }
        case 46: { C* y = 0; RANGE(y = new C(K::mk(nc, mn), f, l, A(7))); size_t t = std::min(cnt, nc); delete px; px = y; d.v.assign(xs.end() - (long)t, xs.end()); d.cap = nc; d.mn = mn; break; }
        case 47: { C* y = 0; RANGE(y = new C(f, l, A(8))); delete px; px = y; d.v = xs; d.cap = cnt; d.mn = 0; break; }
        case 48: { size_t t = std::min(cnt, nc); C* y = new C(K::mk(nc, mn), t, item, A(9)); delete px; px = y; d.v.assign(t, v); d.cap = nc; d.mn = mn; break; }
        case 49: { C* y = r.chance(50) ? K::fill(cnt, item, A(3)) : 0; if (y) { delete px; px = y; d.v = same; d.cap = cnt; d.mn = 0; } break; }
        case 50: x.linearize(); break;
        case 51: case 52: if (n) { size_t t = r.below(n); const C& kx = x; x.rotate(kx.begin() + (long)t); std::rotate(d.v.begin(), d.v.begin() + (long)t, d.v.end()); } break;
        default: if (n) { x[p % n] = item; d.v[p % n] = v; std::sort(x.begin(), x.end()); std::sort(d.v.begin(), d.v.end()); } break;
        }
        obs(i); if (!g_bad && op >= 41 && op <= 44) obs(j);
#ifdef BOOST_ENABLE_ASSERT_HANDLER
        if (g_asserts && !g_bad) { viol("false-assert", g_assert_text); }
#endif
    }
};
template <class C> void run(const char* name, u64 seed, int hist, int steps) {
    static const size_t caps[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 31};
    for (int h = 0; h < hist; ++h) {
        g_dig = seed; g_bad = false; ++n_hist; std::sprintf(g_case, "trace:%s:seed %llu:history %d", name, seed, h); g_op[0] = 0;
#ifdef BOOST_ENABLE_ASSERT_HANDLER
        g_asserts = 0;
#endif
        { H<C> w(seed * 1000 + (u64)h); size_t cap = caps[h % 10]; w.c[0]->set_capacity(Kind<C>::mk(cap, 0)); w.m[0].cap = cap; w.c[1]->set_capacity(Kind<C>::mk(cap / 2 + 1, 0)); w.m[1].cap = cap / 2 + 1;
          for (int s = 0; s < steps && !g_bad; ++s) w.step(cap + 3); }
        if (!g_bad && (g_held || g_blocks || g_live)) viol("leak", "memory or elements left after the containers were destroyed");
#ifdef BOOST_ENABLE_ASSERT_HANDLER
        if (!g_bad && g_asserts) viol("false-assert", g_assert_text);
#endif
        g_held = g_blocks = g_live = 0; if (n_viol) { if (g_bad) return; }
        std::printf("{\"t\":\"digest\",\"key\":\"%s seed %llu history %d\",\"value\":\"%llx\"}\n", name, seed, h, g_dig);
        if (h % 17 == 3) std::printf("{\"t\":\"sample\",\"text\":\"%s, digest %llx, last operation: %s\",\"case\":\"%s\"}\n", g_case, g_dig, g_op, g_case);
    }
}
#ifndef BOOST_NO_EXCEPTIONS
// an element whose every construction, copy, move and assignment may throw: the guarantees after an exception are the same in every build
static long g_left = -1; static u64 n_fault = 0; struct Boom {};
static void tick() { if (g_left >= 0 && g_left-- == 0) throw Boom(); }
struct Fe { int v; Fe() : v(0) { tick(); ++g_live; } Fe(int x) : v(x) { tick(); ++g_live; } Fe(const Fe& o) : v(o.v) { tick(); ++g_live; } Fe& operator=(const Fe& o) { tick(); v = o.v; return *this; } ~Fe() { --g_live; }
#if __cplusplus >= 201103L
    Fe(Fe&& o) : v(o.v) { tick(); o.v = -1; ++g_live; } Fe& operator=(Fe&& o) { tick(); v = o.v; o.v = -1; return *this; }
#endif
};
template <class C> void faults(const char* name) {
    typedef Kind<C> K; typedef typename C::value_type T; typedef Al<T> A;
    static const char* const names[] = {"set_capacity (larger)", "set_capacity (smaller)", "rset_capacity (larger)", "rset_capacity (smaller)", "copy assignment", "push_back", "push_front", "insert", "rinsert", "insert n", "rinsert n", "insert range", "resize", "assign n", "assign range", "copy constructor", "linearize", "erase", "rotate", "rinsert range"};
    for (size_t cap = 1; cap <= 4; ++cap) for (size_t n = 0; n <= cap; ++n) for (size_t off = 0; off < cap; ++off) for (int op = 0; op < 20; ++op) for (long k = 0; k < 40; ++k) {
        bool thrown = false; ++n_fault; g_bad = false;
        {
            C x(K::mk(cap, K::so ? cap : 0), A(1)), y(K::mk(3, 0), A(2)); y.push_back(T(91)); y.push_back(T(92)); std::vector<T> src(2, T(70));
            for (size_t q = 0; q < off; ++q) { x.push_back(T(0)); x.pop_front(); } for (size_t q = 0; q < n; ++q) x.push_back(T((int)q + 1)); T item(50);
            std::sprintf(g_case, "trace:%s:capacity %d size %d offset %d, %s, exception at throw point %ld", name, (int)cap, (int)n, (int)off, names[op], k); std::strcpy(g_op, names[op]); size_t mid = n / 2; size_t mn0 = K::mn(x); long b0 = g_blocks, h0 = g_held;
            typename C::const_iterator cm = x.begin() + (long)mid;
            g_left = k;
            try {
                switch (op) {
                case 0: x.set_capacity(K::mk(cap + 2, 0)); break; case 1: x.set_capacity(K::mk(cap - 1, 0)); break; case 2: x.rset_capacity(K::mk(cap + 2, 0)); break; case 3: x.rset_capacity(K::mk(cap - 1, 0)); break; case 4: x = y; break;
                case 5: x.push_back(item); break; case 6: x.push_front(item); break; case 7: x.insert(x.begin() + (long)mid, item); break; case 8: x.rinsert(x.begin() + (long)mid, item); break; case 9: x.insert(x.begin() + (long)mid, 2, item); break; case 10: x.rinsert(x.begin() + (long)mid, 2, item); break;
                case 11: x.insert(x.begin() + (long)mid, src.begin(), src.end()); break; case 12: x.resize(cap + 1, item); break; case 13: x.assign(3, item); break; case 14: x.assign(src.begin(), src.end()); break; case 15: { C z(x); break; } case 16: x.linearize(); break;
                case 17: if (n) x.erase(x.begin() + (long)mid); break; case 18: if (n) x.rotate(cm); break; default: x.rinsert(x.begin() + (long)mid, src.begin(), src.end()); break;
                }
            } catch (const Boom&) { thrown = true; }
            g_left = -1;
            if (thrown && (op <= 4 || op == 15)) {
                bool same = x.size() == n && (size_t)x.capacity() == cap && K::mn(x) == mn0 && g_blocks == b0 && g_held == h0; for (size_t q = 0; same && q < n; ++q) same = x[q].v == (int)q + 1;
                if (!same) viol("strong", "a failed operation with the strong guarantee changed the container");
            }
            if (thrown) { if (x.size() > (size_t)x.capacity()) viol("after-exception", "size() exceeds capacity() after an exception"); if (g_live != (long)(x.size() + y.size()) + 3) viol("after-exception", "elements leaked or lost after an exception"); x.push_back(T(5)); x.push_front(T(6)); x.linearize(); x.clear(); x.push_back(T(7)); if ((size_t)x.capacity() && x.front().v != 7) viol("after-exception", "the container is not usable after an exception"); }
        }
        if (!g_bad && (g_held || g_blocks || g_live)) viol("leak", "memory or elements left after an exception"); g_held = g_blocks = g_live = 0; if (g_bad) { if (n_viol > 5) return; continue; }
        if (!thrown) break;
    }
    std::printf("{\"t\":\"digest\",\"key\":\"%s faults\",\"value\":\"1\"}\n", name);
}
#endif
int main(int argc, char** argv) {
    u64 seed = 1; int hist = 20, steps = 150; for (int i = 1; i + 1 < argc; ++i) { if (!std::strcmp(argv[i], "-seed")) seed = (u64)std::atol(argv[i + 1]); if (!std::strcmp(argv[i], "-n")) hist = std::atoi(argv[i + 1]); if (!std::strcmp(argv[i], "-steps")) steps = std::atoi(argv[i + 1]); }
    run<boost::circular_buffer<int, Al<int> > >("cb<int>", seed, hist, steps); run<boost::circular_buffer<El, Al<El> > >("cb<class>", seed, hist, steps);
    run<boost::circular_buffer<Pod, Al<Pod> > >("cb<pod>", seed, hist, steps); run<boost::circular_buffer<unsigned char, Al<unsigned char> > >("cb<uchar>", seed, hist, steps);
    run<boost::circular_buffer_space_optimized<int, Al<int> > >("so<int>", seed, hist, steps); run<boost::circular_buffer_space_optimized<El, Al<El> > >("so<class>", seed, hist, steps);
    run<boost::circular_buffer_space_optimized<Pod, Al<Pod> > >("so<pod>", seed, hist, steps);
    u64 nf = 0;
#ifndef BOOST_NO_EXCEPTIONS
    faults<boost::circular_buffer<Fe, Al<Fe> > >("cb<throwing>"); faults<boost::circular_buffer_space_optimized<Fe, Al<Fe> > >("so<throwing>"); nf = n_fault;
#endif
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"trace\",\"cases\":%llu,\"distinct\":%llu,\"ops\":%llu,\"observations\":%llu,\"faulted\":%llu}\n", n_hist, n_hist, n_ops, n_obs, nf);
    return n_viol ? 1 : 0;
}

// Requests at and beyond max_size(): the limit is the allocator's and that of the difference type; beyond it every operation throws
// std::length_error, calls the allocator not at all and changes nothing; up to it the allocator is asked for exactly the amount.
#include "mon.hpp"
#include <boost/circular_buffer.hpp>
#include <iterator>
#include <limits>
#include <stdexcept>
using namespace mon;
static uint64_t n_cases = 0, n_len = 0, n_forward = 0; static long g_calls = 0, g_held = 0; static unsigned long long g_last = 0;
// LIM 0: no max_size() member; otherwise the declared limit.  S, D: size and difference types.
template <class T, size_t LIM, class S, class D> struct LA {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef S size_type; typedef D difference_type; template <class U> struct rebind { typedef LA<U, LIM, S, D> other; };
    LA() {} template <class U> LA(const LA<U, LIM, S, D>&) {}
    T* allocate(S n) { ++g_calls; g_last = (unsigned long long)n; if ((unsigned long long)n > (1u << 20)) throw std::bad_alloc(); g_held += (long)n; return (T*)std::malloc((size_t)n * sizeof(T)); }
    void deallocate(T* p, S n) { g_held -= (long)n; std::free(p); }
    S max_size() const { return (S)LIM; }
};
template <class T, class S, class D> struct LA<T, 0, S, D> {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference; typedef S size_type; typedef D difference_type; template <class U> struct rebind { typedef LA<U, 0, S, D> other; };
    LA() {} template <class U> LA(const LA<U, 0, S, D>&) {}
    T* allocate(S n) { ++g_calls; g_last = (unsigned long long)n; if ((unsigned long long)n > (1u << 20)) throw std::bad_alloc(); g_held += (long)n; return (T*)std::malloc((size_t)n * sizeof(T)); }
    void deallocate(T* p, S n) { g_held -= (long)n; std::free(p); }
};
template <class T, size_t L, class S, class D> bool operator==(const LA<T, L, S, D>&, const LA<T, L, S, D>&) { return true; } template <class T, size_t L, class S, class D> bool operator!=(const LA<T, L, S, D>&, const LA<T, L, S, D>&) { return false; }
static long g_objs = 0;
struct Obj { int v; int w[5]; Obj(int x = 0) : v(x) { ++g_objs; } Obj(const Obj& o) : v(o.v) { ++g_objs; } Obj& operator=(const Obj& o) { v = o.v; return *this; } ~Obj() { --g_objs; } };
static int val(const Obj& o) { return o.v; } template <class T> int val(const T& x) { return (int)x; }
// a random access range of any length, all elements equal
template <class T> struct Same { typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T reference; typedef const T* pointer; long long i; Same(long long k = 0) : i(k) {}
    T operator*() const { return T(7); } T operator[](std::ptrdiff_t) const { return T(7); } Same& operator++() { ++i; return *this; } Same operator++(int) { Same t(*this); ++i; return t; } Same& operator--() { --i; return *this; } Same operator--(int) { Same t(*this); --i; return t; } Same& operator+=(std::ptrdiff_t n) { i += n; return *this; } Same& operator-=(std::ptrdiff_t n) { i -= n; return *this; }
    friend Same operator+(Same a, std::ptrdiff_t n) { return a += n; } friend Same operator-(Same a, std::ptrdiff_t n) { return a -= n; } friend std::ptrdiff_t operator-(Same a, Same b) { return a.i - b.i; } friend bool operator==(Same a, Same b) { return a.i == b.i; } friend bool operator!=(Same a, Same b) { return a.i != b.i; } friend bool operator<(Same a, Same b) { return a.i < b.i; } };
template <class C> struct is_so { enum { value = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> typename std::enable_if<!is_so<C>::value, typename C::capacity_type>::type mkcap(unsigned long long c, unsigned long long) { return (typename C::capacity_type)c; }
template <class C> typename std::enable_if<is_so<C>::value, typename C::capacity_type>::type mkcap(unsigned long long c, unsigned long long m) { return typename C::capacity_type((typename C::size_type)c, (typename C::size_type)m); }
static const char* cname;
template <class C> struct M {
    typedef typename C::value_type T; typedef typename C::size_type S; typedef unsigned long long U; enum { SO = is_so<C>::value };
    // kind 0: replaces nothing (construction), 1: on an existing container
    template <class F> static void one(const char* op, U n, bool over, bool must_alloc, F f) {
        for (int full = 0; full < 2; ++full) {
            char b[200]; std::snprintf(b, sizeof b, "maxsize:%s %s n=%llu (%s)", cname, op, n, full ? "full" : "room"); case_spec() = b; op_text() = b; case_failed() = false; ++n_cases; sample_case(); progress() = progress() + 1;
            long h0 = g_held, o0 = g_objs;
            {
                C c(mkcap<C>(4, 0)); for (int k = 0; k < 3; ++k) { c.push_back(T(9)); c.pop_front(); } for (int k = 0; k < (full ? 4 : 3); ++k) c.push_back(T(k + 1));
                const T* a0 = &c[0]; S sz = c.size(); U cap = (U)(S)c.capacity(); long c0 = g_calls, hold0 = g_held, ob0 = g_objs; int how = 0; g_last = 0; const bool keep_cap = !(SO && std::strstr(op, "resize")); // (r)resize of a space optimized buffer: basic guarantee, the new capacity limit may stay
                try { f(c); } catch (const std::length_error&) { how = 1; } catch (const std::bad_alloc&) { how = 2; } catch (...) { how = 3; }
                if (over) {
                    ++n_len;
                    if (how != 1) viol("maxsize", "no-length-error", "%s with n = %llu above max_size() %llu %s", op, n, (U)c.max_size(), how == 0 ? "did not throw" : how == 2 ? "reached the allocator (std::bad_alloc)" : "threw something else");
                    else if (g_calls != c0) viol("maxsize", "allocated", "%s with n = %llu allocated before it threw std::length_error", op, n);
                    else if (c.size() != sz || (keep_cap && (U)(S)c.capacity() != cap) || &c[0] != a0 || g_held != hold0 || g_objs != ob0) viol("maxsize", "side-effect", "%s with n = %llu changed the container before it threw std::length_error", op, n);
                    else for (S k = 0; k < sz; ++k) if (val(c[k]) != (int)k + 1) { viol("maxsize", "side-effect", "%s with n = %llu changed the contents before it threw", op, n); break; }
                } else {
                    ++n_forward;
                    if (how == 1) viol("maxsize", "early-length-error", "%s with n = %llu, max_size() %llu, threw std::length_error", op, n, (U)c.max_size());
                    else if (must_alloc && g_last != n) viol("maxsize", "other-amount", "%s with n = %llu asked the allocator for %llu", op, n, g_last);
                }
            }
            if (!case_failed() && (g_held != h0 || g_objs != o0)) viol("maxsize", "leak", "%s with n = %llu leaks", op, n);
        }
    }
    static void all(U n, bool over, U dmax) {
        const S s = (S)n; if ((U)s != n) return; T item(7); Same<T> b(0), e((long long)n); const bool range = n <= (U)std::numeric_limits<long long>::max();
        (void)dmax;
        one("constructor(n, item)", n, over, true, [&](C&) { C d = SO ? C(mkcap<C>(n, 0), s, item) : C(mkcap<C>(n, 0), item_or(item)); });
        one("constructor(capacity, n, item)", n, over, true, [&](C&) { C d(mkcap<C>(n, 0), s, item); });
        one("constructor(capacity)", n, over, true, [&](C&) { C d(mkcap<C>(n, n)); });
        one("set_capacity", n, over, true, [&](C& c) { c.set_capacity(mkcap<C>(n, n)); });
        one("rset_capacity", n, over, true, [&](C& c) { c.rset_capacity(mkcap<C>(n, n)); });
        one("resize", n, over, !SO, [&](C& c) { c.resize(s, item); });
        one("rresize", n, over, !SO, [&](C& c) { c.rresize(s, item); });
        one("assign(n, item)", n, over, true, [&](C& c) { c.assign(s, item); });
        one("assign(capacity, n, item)", n, over, true, [&](C& c) { c.assign(mkcap<C>(n, 0), s, item); });
        one("assign(capacity, 1, item)", n, over, true, [&](C& c) { c.assign(mkcap<C>(n, n), (S)1, item); });
        one("assign(capacity, range)", n, over, true, [&](C& c) { c.assign(mkcap<C>(n, n), b, b + 2); });
        one("constructor(capacity, range)", n, over, true, [&](C&) { C d(mkcap<C>(n, n), b, b + 2); });
        if (range) {
            one("assign(range)", n, over, true, [&](C& c) { c.assign(b, e); });
            one("constructor(range)", n, over, true, [&](C&) { C d(b, e); });
            one("assign(capacity, long range)", n, over, true, [&](C& c) { c.assign(mkcap<C>(n, 0), b, e); });
            one("constructor(capacity, long range)", n, over, true, [&](C&) { C d(mkcap<C>(n, 0), b, e); });
        }
        if (SO) { one("assign(capacity, n, item) with min_capacity", n, over, true, [&](C& c) { c.assign(mkcap<C>(n, n), (S)2, item); }); }
    }
    static const T& item_or(const T& x) { return x; }
    static void drive(const char* name, U alloc_max, U dmax) {
        cname = name; C c; U mx = (U)c.max_size(), want = std::min(alloc_max, dmax); case_spec() = op_text() = std::string("maxsize:") + name; case_failed() = false; ++n_cases;
        if (mx > want) viol("maxsize", "max_size", "max_size() is %llu, the allocator and the difference type allow %llu", mx, want);
        else if (mx != want) viol("maxsize", "max_size", "max_size() is %llu although %llu are allowed", mx, want);
        U t = (U)std::numeric_limits<S>::max(), ns[] = {mx + 1, mx + 2, mx + 1000, t / 2 + 1, t / 2 + 2, t / sizeof(T) + 1, t - 1, t};
        for (U n : ns) if (n > mx && n <= t) all(n, true, dmax);
        U small[] = {mx, mx - 1, mx / 2 + 1}; for (U n : small) if (n > 4) all(n, false, dmax);
    }
};
// an ordinary workload with narrow size and difference types, up to the largest capacity they allow
template <class C> void narrow(const char* name, uint64_t seed) {
    typedef typename C::value_type T; typedef typename C::size_type S; cname = name; const size_t mx = C().max_size(); Rng r(seed);
    for (int h = 0; h < 30; ++h) {
        size_t cap = h % 5 == 0 ? mx : h % 5 == 1 ? mx - 1 : h % 5 == 2 ? mx / 2 + 1 : 1 + r.below(300); cap = std::min<size_t>(std::min<size_t>(cap, mx), 40000); char b[160]; std::snprintf(b, sizeof b, "narrow:%s capacity %zu seed %llu history %d", name, cap, (unsigned long long)seed, h); case_spec() = b; op_text() = b; case_failed() = false; ++n_cases; progress() = progress() + 1;
        C c(mkcap<C>(cap, 0)); std::vector<int> m; size_t n0 = r.below(4) ? cap - std::min(cap, r.below(3)) : r.below(cap + 1); for (size_t k = 0; k < r.below(cap); ++k) { c.push_back(T(0)); c.pop_front(); } for (size_t k = 0; k < n0; ++k) { int x = (int)r.below(100); c.push_back(T(x)); m.push_back(x); }
        for (int s = 0; s < 25 && !case_failed(); ++s) {
            size_t n = m.size(), p = r.below(4) ? (r.below(2) ? n - std::min(n, r.below(4)) : std::min(n, r.below(4))) : r.below(n + 1), k = std::min<size_t>(r.below(2) ? r.below(5) : r.below(n + 1), cap - n); int x = (int)r.below(100);
            switch (r.below(14)) {
            case 0: c.push_back(T(x)); if (n == cap) m.erase(m.begin()); m.push_back(x); break;
            case 1: c.push_front(T(x)); if (n == cap) m.pop_back(); m.insert(m.begin(), x); break;
            case 2: if (n) { c.pop_back(); m.pop_back(); } break;
            case 3: if (n) { c.pop_front(); m.erase(m.begin()); } break;
            case 4: c.insert(c.begin() + (typename C::difference_type)p, (S)k, T(x)); m.insert(m.begin() + (long)p, k, x); break;
            case 5: c.rinsert(c.begin() + (typename C::difference_type)p, (S)k, T(x)); m.insert(m.begin() + (long)p, k, x); break;
            case 6: { std::vector<T> v(k, T(x)); c.insert(c.begin() + (typename C::difference_type)p, v.begin(), v.end()); m.insert(m.begin() + (long)p, k, x); break; }
            case 7: { std::vector<T> v(k, T(x)); c.rinsert(c.begin() + (typename C::difference_type)p, v.begin(), v.end()); m.insert(m.begin() + (long)p, k, x); break; }
            case 8: { size_t e = p + std::min<size_t>(n - p, r.below(2) ? r.below(5) : n); c.erase(c.begin() + (typename C::difference_type)p, c.begin() + (typename C::difference_type)e); m.erase(m.begin() + (long)p, m.begin() + (long)e); break; }
            case 9: { size_t e = p + std::min<size_t>(n - p, r.below(5)); c.rerase(c.begin() + (typename C::difference_type)p, c.begin() + (typename C::difference_type)e); m.erase(m.begin() + (long)p, m.begin() + (long)e); break; }
            case 10: if (p < n) { c.rotate(c.begin() + (typename C::difference_type)p); std::rotate(m.begin(), m.begin() + (long)p, m.end()); } break;
            case 11: c.linearize(); break;
            case 12: { size_t t = std::min(cap, r.below(3) ? n + r.below(3) : r.below(cap + 1)); c.resize((S)t, T(x)); m.resize(t, x); break; }
            default: if (n) { size_t q = r.below(n); c[(S)q] = T(x); m[q] = x; std::reverse(c.begin(), c.end()); std::reverse(m.begin(), m.end()); } break;
            }
            const C& kc = c; bool ok = kc.size() == m.size() && (size_t)(S)kc.capacity() == cap && (size_t)kc.reserve() == cap - m.size() && (size_t)(kc.end() - kc.begin()) == m.size() && (size_t)kc.array_one().second + kc.array_two().second == m.size();
            if (ok) { size_t q = 0; for (typename C::const_iterator it = kc.begin(); it != kc.end() && ok; ++it, ++q) ok = q < m.size() && val(*it) == m[q]; ok = ok && q == m.size(); for (size_t z = 0; z < m.size() && ok; z += 1 + m.size() / 50) ok = val(kc[(S)z]) == m[z] && val(kc.at((S)z)) == m[z] && val(*(kc.begin() + (typename C::difference_type)z)) == m[z] && val(*(kc.end() - (typename C::difference_type)(m.size() - z))) == m[z]; }
            if (!ok) viol("maxsize", "narrow", "with narrow size types: size %zu, specified %zu, or contents differ after step %d", (size_t)c.size(), m.size(), s);
        }
    }
}
template <size_t L, class S, class D> void group(const char* nm, unsigned long long lim, uint64_t seed, bool nar) {
    using boost::circular_buffer; using boost::circular_buffer_space_optimized; typedef unsigned long long U; U d = (U)std::numeric_limits<D>::max(), t = (U)std::numeric_limits<S>::max(); char b[8][80];
#define GO(K, T, I) std::snprintf(b[I], 80, "%s<%s>, %s", #K, #T, nm); M<K<T, LA<T, L, S, D> > >::drive(b[I], lim ? lim : t / sizeof(T), d); if (nar) narrow<K<T, LA<T, L, S, D> > >(b[I], seed * 10 + I);
    GO(circular_buffer, char, 0) GO(circular_buffer, int, 1) GO(circular_buffer, Obj, 2) GO(circular_buffer, double, 3) GO(circular_buffer_space_optimized, char, 4) GO(circular_buffer_space_optimized, int, 5) GO(circular_buffer_space_optimized, Obj, 6)
}
int main(int argc, char** argv) {
    install(); for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    auto arg = [&](const char* n, unsigned long long d) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], n)) return std::strtoull(argv[i + 1], 0, 0); return d; };
    uint64_t s = arg("-seed", 1); dedup_keys() = false; max_viol() = 30;
    group<10, size_t, ptrdiff_t>("limit 10", 10, s, false); group<0, size_t, ptrdiff_t>("no limit", 0, s, false); group<5000, size_t, ptrdiff_t>("limit 5000", 5000, s, true); group<((size_t)1 << 40), size_t, ptrdiff_t>("limit 2^40", 1ull << 40, s, false);
    group<0, unsigned, int>("32-bit sizes", 0, s, true); group<0, unsigned short, short>("16-bit sizes", 0, s, true); group<0, unsigned char, signed char>("8-bit sizes", 0, s, true);
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"maxsize\",\"cases\":%llu,\"distinct\":%llu,\"beyond\":%llu,\"within\":%llu}\n", (unsigned long long)n_cases, (unsigned long long)n_cases, (unsigned long long)n_len, (unsigned long long)n_forward);
    return wanted_count() ? 1 : 0;
}

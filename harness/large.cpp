// Buffers whose element counts and byte offsets exceed 2^31 and 2^32, in reserved but unbacked memory.
// Only a few elements carry values ("tokens"); everything else stays untouched, so nothing large is ever committed.
#include <boost/circular_buffer.hpp>
#include <sys/mman.h>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <stdexcept>
#include <unistd.h>
typedef unsigned long long u64; typedef long long i64;
static char g_case[200] = "", g_op[200] = ""; static u64 n_cases = 0, n_obs = 0; static int n_viol = 0;
static void viol(const char* key, const char* f, ...) { char b[300]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); if (++n_viol > 20) return; std::printf("{\"t\":\"viol\",\"tag\":\"large\",\"key\":\"%s\",\"case\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\"}\n", key, g_case, g_op, b); std::fflush(stdout); }
static void die(const char* t, const char* m) { char b[700]; int n = std::snprintf(b, sizeof b, "\n{\"t\":\"%s\",\"tag\":\"crash\",\"key\":\"\",\"case\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\"}\n", t, g_case, g_op, m); if (write(1, b, (size_t)n)) {} _exit(1); }
static void on_sig(int s) { if (s == SIGALRM) die("HANG", "the operation did not come to an end"); die(s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGABRT", "terminated by a signal"); }
static bool g_quiet = false;       // while set, copying an element is a no-op
template <int S> struct E { unsigned char v; unsigned char pad[S - 1]; E() {} E(int x) : v((unsigned char)x) {} E(const E& o) { if (!g_quiet) v = o.v; } E& operator=(const E& o) { if (!g_quiet) v = o.v; return *this; } };
template <> struct E<1> { unsigned char v; E() {} E(int x) : v((unsigned char)x) {} E(const E& o) { if (!g_quiet) v = o.v; } E& operator=(const E& o) { if (!g_quiet) v = o.v; return *this; } };
static i64 g_held = 0;
template <class T> struct Al {
    typedef T value_type; Al() {} template <class U> Al(const Al<U>&) {}
    T* allocate(std::size_t n) { void* p = mmap(0, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::bad_alloc(); g_held += (i64)n; return (T*)p; }
    void deallocate(T* p, std::size_t n) { g_held -= (i64)n; munmap((void*)p, n * sizeof(T)); }
};
template <class T, class U> bool operator==(const Al<T>&, const Al<U>&) { return true; } template <class T, class U> bool operator!=(const Al<T>&, const Al<U>&) { return false; }
#define OP(...) (std::snprintf(g_op, sizeof g_op, __VA_ARGS__), (void)alarm(120), ++n_cases)
#define CHECK(K, C, ...) do { ++n_obs; if (!(C)) { viol(K, __VA_ARGS__); } } while (0)
struct Rng { u64 s; u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } };

template <class C> struct L {
    typedef typename C::value_type T; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef std::size_t sz;
    C& c; std::map<sz, int> tok; Rng r; L(C& x, u64 seed) : c(x) { r.s = seed * 7919 + 1; r.next(); }
    sz n() const { return c.size(); }
    // the tokens are where they belong, by every way of access
    void look(sz want, bool all = true) {
        const C& k = c; CHECK("size", k.size() == want, "size() is %zu instead of %zu", k.size(), want); if (k.size() != want) { tok.clear(); return; }
        CHECK("empty", !k.empty() && k.full() == (k.capacity() == want) && k.reserve() == (sz)k.capacity() - want, "empty(), full() or reserve() disagrees with size() and capacity()");
        CHECK("distance", k.end() - k.begin() == (i64)want && c.end() - c.begin() == (i64)want && k.begin() - k.end() == -(i64)want, "end() - begin() is %lld instead of %zu", (i64)(k.end() - k.begin()), want);
        typename C::const_array_range a = k.array_one(), b = k.array_two(); CHECK("arrays", a.second + b.second == want, "array_one and array_two hold %zu + %zu elements instead of %zu", (sz)a.second, (sz)b.second, want);
        CHECK("linearized", k.is_linearized() == (b.second == 0), "is_linearized() disagrees with array_two()");
        if (!all) return;
        for (std::map<sz, int>::iterator i = tok.begin(); i != tok.end(); ++i) { sz p = i->first; int v = i->second; CIt it = k.begin() + (i64)p; It e = c.end(); e -= (i64)(want - p);
            CHECK("index", k[p].v == v, "[%zu] is %d instead of %d", p, k[p].v, v); CHECK("at", k.at(p).v == v, "at(%zu) is %d instead of %d", p, k.at(p).v, v);
            CHECK("iterator", it->v == v && e->v == v && k.begin()[(i64)p].v == v && c.rbegin()[(i64)(want - 1 - p)].v == v, "an iterator to position %zu shows %d, %d, %d, %d instead of %d", p, it->v, e->v, k.begin()[(i64)p].v, c.rbegin()[(i64)(want - 1 - p)].v, v);
            CHECK("difference", it - k.begin() == (i64)p && k.end() - it == (i64)(want - p) && e == it, "position of the iterator to %zu is %lld", p, (i64)(it - k.begin()));
            const T* s = p < a.second ? a.first + p : b.first + (p - a.second); CHECK("arrays", s->v == v && s == &k[p], "the arrays do not show element %zu", p);
            std::map<sz, int>::iterator j = i; if (++j != tok.end()) { CIt o = k.begin() + (i64)j->first; CHECK("order", it < o && !(o < it) && it != o && o - it == (i64)(j->first - p) && it + (i64)(j->first - p) == o && o - (i64)(j->first - p) == it, "iterators to %zu and %zu are not ordered", p, j->first); } }
        bool t = false; try { (void)k.at(want); } catch (const std::out_of_range&) { t = true; } CHECK("at-throw", t, "at(size()) did not throw"); t = false; try { (void)c.at(want + 0x100000000ull); } catch (const std::out_of_range&) { t = true; } CHECK("at-throw", t, "at(size() + 2^32) did not throw");
        CHECK("front", k.front().v == k[0].v && &k.front() == &k[0] && &c.back() == &k[want - 1], "front() or back() is not the first or last element");
    }
    void put(sz p, int v) { c[p] = T(v); tok[p] = v; }
    void shift(i64 d) { std::map<sz, int> t; for (std::map<sz, int>::iterator i = tok.begin(); i != tok.end(); ++i) t[(sz)((i64)i->first + d)] = i->second; tok.swap(t); }
    void go(sz N, int rounds, bool wide) {
        look(N);
        OP("writing through [] on %zu elements", N); int v = 1; sz ps[] = {0, 1, 2, 3, 4, N / 2, N - 1, N - 2, N - 3, N - 4, N - 5, N / 3, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0x100000000ull, 0x100000001ull};
        for (sz p : ps) if (p < N) put(p, v++);
        for (int i = 0; i < 12; ++i) put(r.next() % N, v++);
        look(N);
        for (int q = 0; q < rounds; ++q) {
            sz k = q == 0 ? N - 1 : q == 1 ? 1 : q == 2 ? (wide ? 0x80000000ull : N / 2) : q == 3 ? (wide ? 0x100000001ull : N / 3) : r.next() % N; k %= N;
            OP("rotate by %zu on %zu elements", k, N); c.rotate(static_cast<const C&>(c).begin() + (i64)k);
            { std::map<sz, int> t; for (auto& x : tok) t[(x.first + N - k) % N] = x.second; tok.swap(t); } look(N);
            if (c.full()) {
                OP("push_back on a full buffer of %zu", N); c.push_back(T(200)); tok.erase(0); shift(-1); tok[N - 1] = 200; look(N);
                OP("push_front on a full buffer of %zu", N); c.push_front(T(201)); tok.erase(N - 1); shift(1); tok[0] = 201; look(N);
            }
            // without room the element at the far end goes; with positions near the ends only a few elements move
            OP("pop_back, pop_front and push on %zu elements", N); c.pop_back(); tok.erase(N - 1); look(N - 1); c.pop_front(); tok.erase(0); shift(-1); look(N - 2); c.push_front(T(202)); shift(1); tok[0] = 202; look(N - 1); c.push_back(T(203)); tok[N - 1] = 203; look(N);
            OP("erase near the end, insert near the end of %zu elements", N); { std::map<sz, int> t; for (auto& x : tok) { if (x.first < N - 3) t[x.first] = x.second; else if (x.first > N - 3) t[x.first - 1] = x.second; } It it = c.erase(c.end() - 3); CHECK("result", it - c.begin() == (i64)(N - 3), "erase returned position %lld", (i64)(it - c.begin())); tok.swap(t); look(N - 1); }
            { It it = c.insert(c.end() - 2, T(204)); CHECK("result", it - c.begin() == (i64)(N - 3), "insert returned position %lld", (i64)(it - c.begin())); std::map<sz, int> t; for (auto& x : tok) t[x.first >= N - 3 ? x.first + 1 : x.first] = x.second; t[N - 3] = 204; tok.swap(t); look(N); }
            OP("rerase near the begin, rinsert near the begin of %zu elements", N); { std::map<sz, int> t; for (auto& x : tok) { if (x.first < 2) t[x.first] = x.second; else if (x.first > 2) t[x.first - 1] = x.second; } It it = c.rerase(c.begin() + 2); CHECK("result", it - c.begin() == 1, "rerase returned position %lld", (i64)(it - c.begin())); tok.swap(t); look(N - 1); }
            { It it = c.rinsert(c.begin() + 2, T(205)); CHECK("result", it - c.begin() == 2, "rinsert returned position %lld", (i64)(it - c.begin())); std::map<sz, int> t; for (auto& x : tok) t[x.first >= 2 ? x.first + 1 : x.first] = x.second; t[2] = 205; tok.swap(t); look(N); }
            put(r.next() % N, v++ % 190 + 1); look(N);
        }
    }
};
template <class C> void erase_ends(C& c, size_t x) { c.erase_begin(x); c.erase_end(x / 2); }
template <class T, class A> void erase_ends(boost::circular_buffer_space_optimized<T, A>& c, size_t x) { c.rerase(c.begin(), c.begin() + (i64)x); c.erase(c.end() - (i64)(x / 2), c.end()); }
template <class C> void full(const char* name, size_t N, int rounds, u64 seed, bool wide) {
    std::snprintf(g_case, sizeof g_case, "large:%s:%zu:seed %llu", name, N, seed);
    {
        typedef typename C::value_type T; typename C::capacity_type cap(N);
        OP("constructor with %zu elements", N); g_quiet = true; C c(cap, N, T(0)); g_quiet = false; CHECK("held", g_held == (i64)N, "%lld elements' memory is held for %zu", g_held, N);
        L<C> l(c, seed); l.go(N, rounds, wide);
        OP("erasing many elements of %zu", N); size_t x = N / 2 + 7; std::map<size_t, int> t; size_t left = N - x - x / 2; for (auto& q : l.tok) if (q.first >= x && q.first - x < left) t[q.first - x] = q.second; g_quiet = true; erase_ends(c, x); g_quiet = false; l.tok.clear(); l.look(left); (void)t;
        OP("swap with an empty buffer"); C d; swap(c, d); CHECK("swap", d.size() == left && c.empty() && c.capacity() == 0 && (size_t)d.capacity() == N, "swap lost the size or the capacity"); C m(boost::move(d)); CHECK("move", m.size() == left && (size_t)m.capacity() == N, "moving lost the size or the capacity");
        OP("clear of %zu elements", left); m.clear(); CHECK("clear", m.empty() && m.size() == 0 && (size_t)m.capacity() == N, "clear() left size %zu", m.size());
        m.push_back(T(5)); m.push_front(T(6)); m.push_back(T(7)); CHECK("after-clear", m.size() == 3 && m[0].v == 6 && m[1].v == 5 && m[2].v == 7, "pushing after clear() gives the wrong elements");
    }
    CHECK("held", g_held == 0, "%lld elements' memory is still held", g_held); g_held = 0;
    std::printf("{\"t\":\"sample\",\"text\":\"%s of %zu elements, %d rounds of rotate, push, pop, insert and erase\",\"case\":\"%s\"}\n", name, N, rounds, g_case);
}
// large capacity, few elements; indices that differ from a valid one by 2^32
template <class C> void sparse(const char* name, size_t cap) {
    std::snprintf(g_case, sizeof g_case, "sparse:%s:%zu", name, cap); typedef typename C::value_type T;
    {
        OP("constructor with capacity %zu", cap); C c((typename C::capacity_type(cap))); CHECK("capacity", (size_t)c.capacity() == cap && c.reserve() == cap && c.empty() && !c.full(), "capacity() is %zu instead of %zu", (size_t)c.capacity(), cap);
        OP("pushes"); for (int i = 0; i < 5; ++i) { c.push_back(T(10 + i)); c.push_front(T(20 + i)); } static const int w[] = {24, 23, 22, 21, 20, 10, 11, 12, 13, 14};
        for (size_t i = 0; i < 10; ++i) CHECK("index", c[i].v == w[i] && (c.begin() + (i64)i)->v == w[i] && (c.end() - (i64)(10 - i))->v == w[i] && c.begin() + (i64)i < c.end() && (c.begin() + (i64)i) - c.begin() == (i64)i, "element %zu is %d instead of %d", i, c[i].v, w[i]);
        for (size_t i = 0; i < 12; ++i) for (size_t hi : {(size_t)0x100000000ull, (size_t)0x80000000ull, (size_t)0x8000000000000000ull, (size_t)0xffffffff00000000ull}) { OP("at(%zu + %zu) on 10 elements", i, hi); bool t = false; try { (void)c.at(i + hi); } catch (const std::out_of_range&) { t = true; } CHECK("at-throw", t, "at() did not throw"); t = false; try { (void)static_cast<const C&>(c).at(i + hi); } catch (const std::out_of_range&) { t = true; } CHECK("at-throw", t, "at() const did not throw"); }
        OP("set_capacity to %zu and back", cap + 0x100000000ull); typedef typename C::capacity_type Cap; c.set_capacity(Cap(cap + 0x100000000ull)); CHECK("capacity", (size_t)c.capacity() == cap + 0x100000000ull && c.size() == 10 && c[9].v == 14, "set_capacity gives capacity %zu", (size_t)c.capacity()); c.rset_capacity(Cap(cap)); CHECK("capacity", (size_t)c.capacity() == cap && c.size() == 10 && c[0].v == 24, "rset_capacity gives capacity %zu", (size_t)c.capacity());
        OP("insert with room for %zu", cap - 10); c.insert(c.begin() + 3, 4, T(77)); c.rinsert(c.begin() + 1, 2, T(78)); CHECK("insert", c.size() == 16 && c[1].v == 78 && c[2].v == 78 && c[3].v == 23 && c[5].v == 77 && c[8].v == 77 && c[9].v == 21 && c[15].v == 14, "inserting in a large buffer gives the wrong elements");
        OP("copy"); C d(c); CHECK("copy", d.size() == 16 && (size_t)d.capacity() == cap && d[15].v == 14, "the copy differs"); OP("assign with capacity %zu", cap + 1); d.assign(Cap(cap + 1), 3, T(9)); CHECK("assign", (size_t)d.capacity() == cap + 1 && d.size() == 3 && d[2].v == 9, "assign gives capacity %zu size %zu", (size_t)d.capacity(), d.size());
        OP("resize within capacity %zu", cap); c.resize(20, T(4)); c.rresize(22, T(3)); CHECK("resize", c.size() == 22 && c[0].v == 3 && c[2].v == 24 && c[21].v == 4 && (size_t)c.capacity() == cap, "resize gives the wrong elements"); c.resize(1); CHECK("resize", c.size() == 1 && c[0].v == 3, "shrinking resize gives the wrong elements");
    }
    CHECK("held", g_held == 0, "%lld elements' memory is still held", g_held); g_held = 0;
    std::printf("{\"t\":\"sample\",\"text\":\"%s of capacity %zu with few elements\",\"case\":\"%s\"}\n", name, cap, g_case);
}
// the space optimized variant grows and shrinks at sizes where products with small factors leave 32 bits
template <class C> void growth(const char* name, size_t cap, size_t top) {
    std::snprintf(g_case, sizeof g_case, "growth:%s:%zu", name, cap); typedef typename C::value_type T; typedef typename C::capacity_type Cap;
    {
        g_quiet = true; OP("constructor with %zu elements", top / 5); C c(Cap(cap, 0), top / 5, T(1)); CHECK("held", g_held == (i64)(top / 5), "%lld elements' memory is held for %zu", g_held, top / 5);
        while (c.size() < top) {
            size_t n = c.size(); i64 h = g_held; OP("push_back on %zu elements, memory for %lld", n, h); g_quiet = true; if (n % 2) c.push_back(T(7)); else c.push_front(T(7)); g_quiet = false;
            CHECK("size", c.size() == n + 1 && (size_t)c.capacity() == cap, "size() is %zu instead of %zu", c.size(), n + 1);
            CHECK("held", g_held >= (i64)(n + 1) && g_held <= (i64)cap && g_held <= (i64)(4 * n + 8), "memory for %lld elements after growing to %zu", g_held, n + 1); CHECK("geometric", g_held == h || g_held >= (i64)(n + n / 10), "growth from %lld to %lld elements' memory at size %zu is not geometric", h, g_held, n);
            n = c.size(); g_quiet = true; OP("resize from %zu to the memory held (%lld)", n, g_held); c.resize((size_t)g_held, T(1)); g_quiet = false; if (c.size() <= n) break;
        }
        size_t n = c.size(); OP("erasing down from %zu", n); g_quiet = true; for (size_t k = n / 2; k > 1000; k /= 3) { i64 h = g_held; c.erase(c.begin() + (i64)k, c.end()); CHECK("held", c.size() == k && g_held >= (i64)k && g_held <= (i64)(4 * k + 8) && g_held <= h, "memory for %lld elements after erasing down to %zu (was %lld)", g_held, k, h); }
        g_quiet = false;
    }
    CHECK("held", g_held == 0, "%lld elements' memory is still held", g_held); g_held = 0;
    std::printf("{\"t\":\"sample\",\"text\":\"%s growing to %zu and shrinking\",\"case\":\"%s\"}\n", name, top, g_case);
}
int main(int argc, char** argv) {
    u64 seed = 1; int part = 7, rounds = 6; for (int i = 1; i + 1 < argc; ++i) { if (!std::strcmp(argv[i], "-seed")) seed = (u64)std::atol(argv[i + 1]); if (!std::strcmp(argv[i], "-part")) part = std::atoi(argv[i + 1]); if (!std::strcmp(argv[i], "-rounds")) rounds = std::atoi(argv[i + 1]); }
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) std::signal(s, on_sig);
    using boost::circular_buffer; using boost::circular_buffer_space_optimized;
    if (part & 1) full<circular_buffer<E<1>, Al<E<1>>>>("cb<1 byte>", 0x100000000ull + 13, rounds, seed, true);
    if (part & 2) full<circular_buffer_space_optimized<E<1>, Al<E<1>>>>("so<1 byte>", 0x80000000ull + 7, rounds, seed, true);
    if (part & 4) {
        full<circular_buffer<E<1 << 20>, Al<E<1 << 20>>>>("cb<1 MiB>", 0x2000 + 3, rounds, seed, false); full<circular_buffer_space_optimized<E<1 << 20>, Al<E<1 << 20>>>>("so<1 MiB>", 0x1000 + 3, rounds, seed, false);
        full<circular_buffer<E<4096>, Al<E<4096>>>>("cb<4 KiB>", 0x100000 + 3, rounds, seed, false);
        for (size_t cap : {(size_t)0x7fffffff, (size_t)0x80000001u, (size_t)0x100000000ull, (size_t)0x300000005ull}) { sparse<circular_buffer<E<1>, Al<E<1>>>>("cb<1 byte>", cap); sparse<circular_buffer<E<3>, Al<E<3>>>>("cb<3 bytes>", cap); sparse<circular_buffer_space_optimized<E<1>, Al<E<1>>>>("so<1 byte>", cap); }
    }
    if (part & 8) { growth<circular_buffer_space_optimized<E<1>, Al<E<1>>>>("so<1 byte>", 0x80000005ull, 1200000000u); growth<circular_buffer_space_optimized<E<3>, Al<E<3>>>>("so<3 bytes>", 0x60000001u, 500000000u); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"large\",\"cases\":%llu,\"distinct\":%llu,\"observations\":%llu}\n", n_cases, n_cases, n_obs); return n_viol ? 1 : 0;
}

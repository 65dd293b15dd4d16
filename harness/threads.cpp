// Thread-safety of the standard container kind: simultaneous reads of one container, simultaneous use of
// distinct containers, and the bounded-buffer idiom under a lock.  ThreadSanitizer is the race oracle; the
// recorded event log of the bounded buffer is checked offline for exactly-once delivery and order.
#include <boost/circular_buffer.hpp>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <vector>
#include <string>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <algorithm>
#include <numeric>
#include <set>
#include <map>
#include <unistd.h>

static std::mutex out_m; static std::atomic<int> nviol(0);
static void viol(const char* key, const std::string& msg, const std::string& cs) {
    std::lock_guard<std::mutex> l(out_m); if (nviol++ > 20) return;
    std::printf("{\"t\":\"viol\",\"tag\":\"threads\",\"key\":\"%s\",\"case\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\"}\n", key, cs.c_str(), key, msg.c_str()); std::fflush(stdout);
}
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 77) { next(); next(); } uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } size_t below(size_t n) { return n ? (size_t)((next() >> 11) % n) : 0; } };
static void jitter(Rng& r) { switch (r.below(6)) { case 0: std::this_thread::yield(); break; case 1: ::usleep((useconds_t)r.below(30)); break; case 2: for (volatile size_t k = 0, n = r.below(300); k < n; k = k + 1) {} break; default: break; } }

static std::atomic<uint64_t> reads(0), rounds_done(0), writes(0), handoffs(0), overlaps(0), firsts(0);
template <class T> T mk(int x) { return T(x); }
template <> std::string mk<std::string>(int x) { return "element number " + std::to_string(x) + " long enough to be on the heap"; }
template <class T> int num(const T& t) { return (int)t; }
template <> int num<std::string>(const std::string& t) { return std::atoi(t.c_str() + 15); }
template <class C> typename std::enable_if<!std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }

// every const operation, result folded into a value comparable between threads
template <class C> uint64_t read_all(const C& c, const C& other, unsigned what) {
    typedef typename C::value_type T; uint64_t h = 1469598103934665603ull; auto mix = [&h](uint64_t x) { h = (h ^ x) * 1099511628211ull; };
    mix(c.size()); mix((uint64_t)(size_t)c.capacity()); mix(c.empty()); mix(c.full()); mix(c.reserve()); mix(c.is_linearized()); mix(c.max_size() > 0);
    mix(c.array_one().second); mix(c.array_two().second);
    if (c.size()) { mix((uint64_t)num(c.front())); mix((uint64_t)num(c.back())); mix((uint64_t)num(c[c.size() / 2])); mix((uint64_t)num(c.at(c.size() - 1))); }
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) mix((uint64_t)num(*i));
    if (what & 1) for (typename C::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) mix((uint64_t)num(*i));
    if (what & 2) { mix(c == other); mix(c < other); mix(c <= other); mix(c != other); mix(other > c); mix(other >= c); }
    if (what & 4) { C copy(c); mix(copy.size()); for (size_t k = 0; k < copy.size(); ++k) mix((uint64_t)num(copy[k])); mix(copy == c); copy.push_back(mk<T>(5)); copy.clear(); }
    if (what & 8) { try { (void)c.at(c.size()); mix(1); } catch (const std::out_of_range&) { mix(2); } }
    if (what & 16) { std::vector<T> v(c.begin(), c.end()); mix(v.size()); mix((uint64_t)(c.end() - c.begin())); mix((uint64_t)(std::find(c.begin(), c.end(), mk<T>(3)) - c.begin())); for (size_t k = 0; k < c.array_one().second; ++k) mix((uint64_t)num(c.array_one().first[k])); for (size_t k = 0; k < c.array_two().second; ++k) mix((uint64_t)num(c.array_two().first[k])); }
    if (what & 32) { C copy(mkcap<C>(c.size() + 1, 0)); copy = c; mix(copy.size()); typename C::allocator_type a = c.get_allocator(); (void)a; C by_range(c.begin(), c.end()); mix(by_range == c); }
    ++reads; return h;
}
struct Gate { std::atomic<int> n; int want; Gate(int w) : n(0), want(w) {} void wait() { ++n; while (n.load() < want) std::this_thread::yield(); } };

template <class C> void readers(const char* name, uint64_t seed, int threads, int rounds) {
    typedef typename C::value_type T; Rng r(seed);
    for (int q = 0; q < rounds; ++q) {
        size_t cap = 1 + r.below(20), n = r.below(cap + 1), off = r.below(cap);
        C a(mkcap<C>(cap, r.below(cap + 1))), b(mkcap<C>(cap + 1, 0));
        for (size_t k = 0; k < off; ++k) { a.push_back(mk<T>(1)); if (k % 2) a.pop_front(); } a.clear();
        for (size_t k = 0; k < off; ++k) { a.push_back(mk<T>(0)); a.pop_front(); }
        for (size_t k = 0; k < n; ++k) a.push_back(mk<T>((int)k)); b = a; if (r.below(2)) b.push_back(mk<T>(9));
        const C& ca = a; const C& cb = b; Gate g(threads); std::vector<uint64_t> h((size_t)threads, 0); std::vector<std::thread> t; std::atomic<int> inside(0), peak(0);
        for (int k = 0; k < threads; ++k) t.emplace_back([&, k] { Rng rr(seed * 31 + (uint64_t)(q * 16 + k)); g.wait(); int in = ++inside; int p = peak.load(); while (p < in && !peak.compare_exchange_weak(p, in)) {} for (int z = 0; z < 4; ++z) { h[(size_t)k] ^= read_all(ca, cb, 63) * (uint64_t)(z + 1); jitter(rr); } --inside; });
        for (auto& x : t) x.join();
        if (peak.load() > 1) ++overlaps;
        for (int k = 1; k < threads; ++k) if (h[(size_t)k] != h[0]) { viol("concurrent-readers-differ", "two threads reading one unmodified container observed different contents", std::string(name) + " round " + std::to_string(q)); break; }
        if (read_all(ca, cb, 63) == 0) std::abort();
        ++rounds_done;
    }
}
// each thread works on its own containers; contents compared with a private reference
template <class C> void distinct(const char* name, uint64_t seed, int threads, int rounds) {
    typedef typename C::value_type T;
    Gate g(threads); std::vector<std::thread> t; std::atomic<bool> stop(false);
    const C shared(mkcap<C>(6, 0), 5, mk<T>(7));                // all threads copy from one source
    for (int k = 0; k < threads; ++k) t.emplace_back([&, k] {
        Rng r(seed * 97 + (uint64_t)k); g.wait();
        for (int q = 0; q < rounds && !stop; ++q) {
            size_t cap = r.below(9); C c(mkcap<C>(cap, 0)); std::vector<int> m;
            for (int s = 0; s < 60; ++s) {
                int x = (int)r.below(1000); ++writes;
                switch (r.below(13)) {
                case 0: case 1: c.push_back(mk<T>(x)); if (cap) { if (m.size() == cap) m.erase(m.begin()); m.push_back(x); } break;
                case 2: c.push_front(mk<T>(x)); if (cap) { if (m.size() == cap) m.pop_back(); m.insert(m.begin(), x); } break;
                case 3: if (m.size()) { c.pop_front(); m.erase(m.begin()); } break;
                case 4: if (m.size()) { c.pop_back(); m.pop_back(); } break;
                case 5: if (m.size() < cap) { size_t p = r.below(m.size() + 1); c.insert(c.begin() + (long)p, mk<T>(x)); m.insert(m.begin() + (long)p, x); } break;
                case 6: if (m.size()) { size_t p = r.below(m.size()); c.erase(c.begin() + (long)p); m.erase(m.begin() + (long)p); } break;
                case 7: c.linearize(); break;
                case 8: if (m.size()) { size_t p = r.below(m.size()); c.rotate(c.begin() + (long)p); std::rotate(m.begin(), m.begin() + (long)p, m.end()); } break;
                case 9: cap = m.size() + r.below(4); c.set_capacity(mkcap<C>(cap, 0)); break;
                case 10: { C d(c); C e(mkcap<C>(1, 0)); e = d; e.swap(c); C f(std::move(e)); break; }
                case 11: if (r.below(4) == 0) { c = shared; m.assign(5, 7); cap = 6; } break;
                case 12: { size_t p = r.below(3); if (m.size() + p <= cap) { std::vector<T> v(p, mk<T>(x)); c.insert(c.end(), v.begin(), v.end()); m.insert(m.end(), p, x); } break; }
                }
                bool ok = c.size() == m.size() && (size_t)c.capacity() == cap; for (size_t i = 0; ok && i < m.size(); ++i) ok = num(c[i]) == m[i];
                if (!ok) { viol("distinct-containers-interfere", "a container used by one thread only differs from its private reference", std::string(name) + " thread " + std::to_string(k) + " round " + std::to_string(q) + " step " + std::to_string(s)); stop = true; break; }
            }
        }
    });
    for (auto& x : t) x.join(); rounds_done += (uint64_t)rounds;
}
// the documented bounded buffer: a circular buffer, a mutex, two conditions
template <class C> struct Bounded {
    C c; std::mutex m; std::condition_variable ne, nf;
    explicit Bounded(size_t cap) : c(mkcap<C>(cap, 0)) {}
    template <class T> void push(T x) { { std::unique_lock<std::mutex> l(m); nf.wait(l, [this] { return !c.full(); }); c.push_front(x); } ne.notify_one(); }
    template <class T> T pop() { T x; { std::unique_lock<std::mutex> l(m); ne.wait(l, [this] { return !c.empty(); }); x = c.back(); c.pop_back(); } nf.notify_one(); return x; }
};
template <class C> void bounded(const char* name, uint64_t seed, int prod, int cons, int items, size_t cap) {
    typedef typename C::value_type T; Bounded<C> b(cap); std::vector<std::thread> t; std::vector<std::vector<int> > got((size_t)cons);
    int total = prod * items; std::atomic<int> left(total);
    for (int p = 0; p < prod; ++p) t.emplace_back([&, p] { Rng r(seed * 13 + (uint64_t)p); for (int k = 0; k < items; ++k) { b.push(mk<T>(p * 100000 + k)); if (k % 5 == 0) jitter(r); } });
    for (int q = 0; q < cons; ++q) t.emplace_back([&, q] { Rng r(seed * 17 + (uint64_t)q); while (left.fetch_sub(1) > 0) { got[(size_t)q].push_back(num(b.template pop<T>())); ++handoffs; if (r.below(5) == 0) jitter(r); } });
    for (auto& x : t) x.join();
    if (cap == 3) std::printf("\n{\"t\":\"sample\",\"text\":\"bounded buffer %s capacity %zu, %d producers, %d consumers, %d items each, seed %llu\",\"case\":\"\"}\n", name, cap, prod, cons, items, (unsigned long long)seed);
    // offline checker over the logs: exactly once, per-producer order at every consumer
    std::map<int, int> seen; std::string cs = std::string(name) + " cap " + std::to_string(cap) + " seed " + std::to_string(seed);
    for (auto& v : got) { std::map<int, int> last; for (int x : v) { ++seen[x]; int p = x / 100000; if (last.count(p) && last[p] >= x) { viol("order", "a consumer received items of one producer out of order", cs); return; } last[p] = x; } }
    if ((int)seen.size() != total) viol("exactly-once", "items lost: " + std::to_string(seen.size()) + " of " + std::to_string(total), cs);
    for (auto& kv : seen) if (kv.second != 1) { viol("exactly-once", "an item was delivered more than once", cs); break; }
    if (!b.c.empty()) viol("exactly-once", "items left in the buffer", cs);
    ++rounds_done;
}
// the very first uses of an element type in the program happen in several threads at once: nothing was set up beforehand
template <int N> struct Fresh { int v; Fresh(int x = 0) : v(x) {} operator int() const { return v; } };
template <class C> void first_use(const char* name, uint64_t seed, int threads) {
    typedef typename C::value_type T; Gate g(threads); std::vector<std::thread> t; std::vector<uint64_t> h((size_t)threads, 0);
    for (int k = 0; k < threads; ++k) t.emplace_back([&, k] {
        g.wait(); uint64_t x = 14695981039346656037ull; auto mix = [&x](uint64_t v) { x = (x ^ v) * 1099511628211ull; };
        C c; mix(c.max_size()); mix(c.empty()); c.set_capacity(mkcap<C>(6, 2)); for (int q = 0; q < 9; ++q) { c.push_back(T(q)); if (q % 3 == 1) c.push_front(T(100 + q)); mix(c.size()); }
        c.insert(c.begin() + 2, T(50)); c.rinsert(c.begin() + 1, (size_t)2, T(60)); c.erase(c.begin() + 1); c.pop_front(); c.pop_back(); c.push_back(); c.resize(5, T(8)); c.rresize(6, T(9)); mix(c.is_linearized()); c.rotate(c.begin() + 2); c.linearize();
        C d(c), e(mkcap<C>(9, 0), c.begin(), c.end()), f(mkcap<C>(3, 1)), z(c.begin(), c.end()); f = d; f.swap(e); swap(f, e); mix(d == c); mix(d < e); mix(f >= e); C m(std::move(d)); d = m; m = std::move(e); m.assign((size_t)4, T(3)); m.assign(mkcap<C>(7, 3), c.begin(), c.end()); m.rset_capacity(mkcap<C>(4, 0));
        try { (void)c.at(c.size()); } catch (const std::out_of_range&) { mix(77); } try { m.set_capacity(mkcap<C>((size_t)-1, (size_t)-1)); } catch (const std::exception&) { mix(78); }
        std::sort(m.begin(), m.end()); m.clear(); m.push_back(T(1)); for (C* o : {&c, &d, &f, &m, &z}) { mix(o->size()); mix((uint64_t)(size_t)o->capacity()); mix(o->max_size()); for (typename C::const_iterator i = o->begin(); i != o->end(); ++i) mix((uint64_t)(int)*i); for (typename C::reverse_iterator i = o->rbegin(); i != o->rend(); ++i) mix((uint64_t)(int)*i); mix(o->array_one().second); mix(o->get_allocator() == c.get_allocator()); }
        h[(size_t)k] = x; ++firsts; writes += 30;
    });
    for (auto& y : t) y.join(); ++rounds_done;
    for (int k = 1; k < threads; ++k) if (h[(size_t)k] != h[0]) { viol("first-use-differs", "threads performing the same first operations observed different results", std::string(name) + " seed " + std::to_string(seed)); break; }
}
template <int N> struct FirstUse { static void run(uint64_t s) { FirstUse<N - 1>::run(s); first_use<boost::circular_buffer<Fresh<N> > >("cb<fresh>", s, 2 + N % 5); first_use<boost::circular_buffer_space_optimized<Fresh<N> > >("so<fresh>", s, 2 + (N + 2) % 5); } };
template <> struct FirstUse<0> { static void run(uint64_t) {} };
int main(int argc, char** argv) {
    auto arg = [&](const char* name, unsigned long long def) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return std::strtoull(argv[i + 1], 0, 0); return def; };
    uint64_t s = arg("-seed", 1); int n = (int)arg("-rounds", 20);
    FirstUse<6>::run(s);
    typedef boost::circular_buffer<int> CI; typedef boost::circular_buffer<std::string> CS; typedef boost::circular_buffer_space_optimized<int> SI; typedef boost::circular_buffer_space_optimized<std::string> SS;
    readers<CI>("cb<int>", s, 4, n * 2); readers<CS>("cb<string>", s + 1, 4, n); readers<SI>("so<int>", s + 2, 4, n); readers<SS>("so<string>", s + 3, 3, n);
    distinct<CI>("cb<int>", s, 4, n * 4); distinct<CS>("cb<string>", s + 1, 4, n * 2); distinct<SI>("so<int>", s + 2, 4, n * 2); distinct<SS>("so<string>", s + 3, 4, n);
    size_t caps[] = {1, 2, 3, 5, 16, 100};
    for (size_t cap : caps) { bounded<CI>("cb<int>", s + cap, 3, 3, n * 10, cap); bounded<SS>("so<string>", s + cap, 2, 3, n * 6, cap); bounded<CS>("cb<string>", s + cap, 3, 2, n * 5, cap); bounded<SI>("so<int>", s + cap, 1, 1, n * 10, cap); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"threads\",\"cases\":%llu,\"reads\":%llu,\"writes\":%llu,\"handoffs\":%llu,\"overlapping_rounds\":%llu,\"first_uses\":%llu,\"distinct\":%llu}\n", (unsigned long long)rounds_done, (unsigned long long)reads, (unsigned long long)writes, (unsigned long long)handoffs, (unsigned long long)overlaps, (unsigned long long)firsts, (unsigned long long)(reads + handoffs));
    return nviol ? 1 : 0;
}

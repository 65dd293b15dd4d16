// Complexity and growth, counted in executed basic blocks (clang -fsanitize-coverage=trace-pc) and in
// allocator events: never in time.
#include <boost/circular_buffer.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <iterator>
#include <algorithm>
#include <memory>
#define NOCOV __attribute__((no_sanitize("coverage"), noinline))
static volatile uint64_t g_steps = 0;
extern "C" NOCOV void __sanitizer_cov_trace_pc() { g_steps = g_steps + 1; }
static std::string want_; static int nwanted = 0, nviol = 0; static uint64_t n_meas = 0, n_rows = 0, n_pushes = 0, n_reallocs = 0, n_alter = 0;
static bool wanted(const char* t) { return want_.empty() || ("," + want_ + ",").find(std::string(",") + t + ",") != std::string::npos; }
static void viol(const char* tag, const std::string& key, const std::string& cs, const std::string& msg) {
    ++nviol; if (wanted(tag)) ++nwanted; if (nviol > 60) return;
    std::printf("{\"t\":\"viol\",\"tag\":\"%s\",\"key\":\"%s\",\"case\":\"%s\",\"op\":\"%s\",\"msg\":\"%s\"}\n", tag, key.c_str(), cs.c_str(), key.c_str(), msg.c_str()); std::fflush(stdout);
}
// an allocator that records amounts
struct Ledger { uint64_t allocs, frees, held, total; }; static Ledger led = {0, 0, 0, 0};
template <class T> struct LA { typedef T value_type; LA() {} template <class U> LA(const LA<U>&) {}
    NOCOV T* allocate(size_t n) { ++led.allocs; led.held += n; led.total += n; return (T*)std::malloc(n * sizeof(T)); } NOCOV void deallocate(T* p, size_t n) { ++led.frees; led.held -= n; std::free(p); } };
template <class T, class U> bool operator==(const LA<T>&, const LA<U>&) { return true; }
template <class T, class U> bool operator!=(const LA<T>&, const LA<U>&) { return false; }
static uint64_t el_ops = 0, el_dtor = 0;
struct El { int v; El() : v(0) { ++el_ops; } El(int x) : v(x) { ++el_ops; } El(const El& o) : v(o.v) { ++el_ops; } El& operator=(const El& o) { v = o.v; ++el_ops; return *this; } ~El() { ++el_dtor; v = -1; } };
static bool operator==(const El& a, const El& b) { return a.v == b.v; }
static bool operator<(const El& a, const El& b) { return a.v < b.v; }

enum Kind { CONST, LIN, LAST };
struct In { typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef long difference_type; typedef const int* pointer; typedef int reference; const size_t* end; size_t i;
    int operator*() const { return (int)i; } In& operator++() { ++i; return *this; } In operator++(int) { In t(*this); ++i; return t; } friend bool operator==(const In& a, const In& b) { return a.i == b.i; } friend bool operator!=(const In& a, const In& b) { return a.i != b.i; } };

template <class C> struct Steps {
    typedef typename C::value_type T; const char* name; enum { SO = !std::is_convertible<typename C::capacity_type, size_t>::value || std::is_constructible<typename C::capacity_type, size_t, size_t>::value };
    // layout: full or half full, straight or wrapped
    static C* make(size_t n, int lay) {
        bool half = lay & 1, wrap = lay & 2; size_t cap = half ? 2 * n : n;
        C* c = new C(typename C::capacity_type(cap)); for (size_t k = 0; k < n; ++k) c->push_back(T((int)k));
        if (wrap) { size_t turns = half ? n + n / 2 : n / 2; for (size_t k = 0; k < turns; ++k) { T x(c->front()); c->pop_front(); c->push_back(x); } }
        return c;
    }
    template <class F> void row(Kind kind, const char* op, int layouts, F f) {
        ++n_rows; if (n_rows % 23 == 5) std::printf("\n{\"t\":\"sample\",\"text\":\"%s %s at sizes 256, 4096, 65536\",\"case\":\"\"}\n", name, op); static const size_t N[3] = {256, 4096, 65536}; uint64_t mx[3] = {0, 0, 0};
        for (int s = 0; s < 3; ++s) for (int lay = 0; lay < 4; ++lay) { if (!(layouts >> lay & 1)) continue; C* c = make(N[s], lay); uint64_t b = g_steps; f(*c, N[s]); uint64_t d = g_steps - b; ++n_meas; mx[s] = std::max(mx[s], d); delete c; }
        bool bad = false; uint64_t bound = 0;
        for (int s = 1; s < 3; ++s) { bound = kind == CONST ? mx[0] * 2 + 200 : mx[0] * 2 * (N[s] / N[0]) + 2000; if (mx[s] > bound) { bad = true; break; } }
        if (bad) viol("cost", std::string("steps:") + op, std::string(name) + " " + op, std::string(kind == CONST ? "constant-time" : "linear-time") + " operation executed " + std::to_string(mx[0]) + ", " + std::to_string(mx[1]) + ", " + std::to_string(mx[2]) + " steps at sizes 256, 4096, 65536");
    }
    void observers() {
        row(CONST, "size", 15, [](C& c, size_t) { volatile size_t x = c.size(); (void)x; }); row(CONST, "capacity", 15, [](C& c, size_t) { volatile size_t x = (size_t)c.capacity(); (void)x; });
        row(CONST, "empty,full,reserve,max_size", 15, [](C& c, size_t) { volatile size_t x = c.empty() + c.full() + c.reserve() + c.max_size(); (void)x; });
        row(CONST, "front,back", 15, [](C& c, size_t) { volatile int x = (c.front() < c.back()); (void)x; }); row(CONST, "operator[]", 15, [](C& c, size_t n) { volatile int x = (c[0] < c[n - 1]) + (c[n / 2] < c[n / 3]); (void)x; });
        row(CONST, "at", 15, [](C& c, size_t n) { volatile int x = (c.at(0) < c.at(n - 1)) + (c.at(n / 2) < c.at(n / 3)); (void)x; });
        row(CONST, "begin,end,rbegin,rend", 15, [](C& c, size_t) { volatile int x = c.begin() == c.end(); x = x + (c.rbegin() == c.rend()); const C& k = c; x = x + (k.begin() == k.end()) + (k.rbegin() == k.rend()); (void)x; });
        row(CONST, "iterator +=,-=,-,<,[]", 15, [](C& c, size_t n) { typename C::iterator i = c.begin(); i += (long)n - 1; i -= (long)n / 2; volatile long d = i - c.begin(); d = d + (c.end() - i) + (i < c.end()) + (c.begin()[(long)n / 3] < *i); (void)d; });
        row(CONST, "iterator ++,--", 15, [](C& c, size_t n) { typename C::iterator i = c.begin() + (long)n / 2; ++i; --i; i++; i--; typename C::iterator e = c.end(); --e; ++e; volatile bool x = e == c.end(); (void)x; });
        row(CONST, "array_one,array_two", 15, [](C& c, size_t) { volatile size_t x = c.array_one().second + c.array_two().second; (void)x; }); row(CONST, "is_linearized", 15, [](C& c, size_t) { volatile bool x = c.is_linearized(); (void)x; });
        row(CONST, "get_allocator", 15, [](C& c, size_t) { typename C::allocator_type a = c.get_allocator(); (void)a; });
        row(LIN, "iterate", 15, [](C& c, size_t) { volatile int x = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i) x = *i < c.front(); (void)x; });
        row(CONST, "== of different sizes", 15, [](C& c, size_t) { C d(typename C::capacity_type(1), T(1)); volatile bool x = c == d; (void)x; });
        row(LIN, "== and <", 15, [](C& c, size_t) { volatile bool x = (c == c) + (c < c); (void)x; });
        row(CONST, "swap", 15, [](C& c, size_t) { C d(typename C::capacity_type(1), T(1)); c.swap(d); c.swap(d); });
        row(CONST, "move construction", 15, [](C& c, size_t) { C d(std::move(c)); d.swap(c); });
        row(CONST, "default construction", 15, [](C&, size_t) { C d; });
        row(LIN, "copy construction", 15, [](C& c, size_t) { C d(c); }); row(LIN, "copy assignment", 15, [](C& c, size_t) { C d; d = c; });
        row(LIN, "range construction", 15, [](C& c, size_t) { C d(c.begin(), c.end()); }); row(LIN, "assign(n)", 15, [](C& c, size_t n) { c.assign(n / 2, T(1)); });
        row(LIN, "assign(single-pass)", 15, [](C& c, size_t n) { In f = {0, 0}, l = {0, n}; c.assign(f, l); });
        row(LIN, "construction(single-pass)", 15, [](C&, size_t n) { In f = {0, 0}, l = {0, n}; C d(f, l); });
        row(LIN, "insert(end, single-pass)", 15, [](C& c, size_t n) { In f = {0, 0}, l = {0, n}; c.insert(c.end(), f, l); });
        row(LIN, "rinsert(begin, single-pass)", 15, [](C& c, size_t n) { In f = {0, 0}, l = {0, n}; std::vector<int> v; for (; f != l; ++f) v.push_back(*f); c.rinsert(c.begin(), v.begin(), v.end()); });
        row(LIN, "insert(middle, n)", 15, [](C& c, size_t n) { c.insert(c.begin() + (long)n / 2, n / 2, T(1)); }); row(LIN, "rinsert(middle, n)", 15, [](C& c, size_t n) { c.rinsert(c.begin() + (long)n / 2, n / 2, T(1)); });
        row(LIN, "insert(middle, list)", 15, [](C& c, size_t n) { std::list<T> l(n / 4, T(1)); uint64_t s = g_steps; (void)s; c.insert(c.begin() + (long)n / 2, l.begin(), l.end()); });
        row(LIN, "insert(middle)", 15, [](C& c, size_t n) { c.insert(c.begin() + (long)n / 2, T(1)); }); row(LIN, "rinsert(middle)", 15, [](C& c, size_t n) { c.rinsert(c.begin() + (long)n / 2, T(1)); });
        row(LIN, "erase(middle)", 15, [](C& c, size_t n) { c.erase(c.begin() + (long)n / 2); }); row(LIN, "rerase(middle)", 15, [](C& c, size_t n) { c.rerase(c.begin() + (long)n / 2); });
        row(LIN, "erase(range)", 15, [](C& c, size_t n) { c.erase(c.begin() + (long)n / 4, c.begin() + (long)n / 2); }); row(LIN, "rerase(range)", 15, [](C& c, size_t n) { c.rerase(c.begin() + (long)n / 4, c.begin() + (long)n / 2); });
        row(LIN, "linearize", 15, [](C& c, size_t) { c.linearize(); }); row(LIN, "rotate", 15, [](C& c, size_t n) { c.rotate(c.begin() + (long)n / 3); });
        row(LIN, "set_capacity", 15, [](C& c, size_t n) { c.set_capacity(typename C::capacity_type(n + 7)); c.set_capacity(typename C::capacity_type(n / 2)); }); row(LIN, "rset_capacity", 15, [](C& c, size_t n) { c.rset_capacity(typename C::capacity_type(n + 7)); c.rset_capacity(typename C::capacity_type(n / 2)); });
        row(LIN, "resize", 15, [](C& c, size_t n) { c.resize(n + 9, T(1)); c.resize(n / 2, T(1)); }); row(LIN, "rresize", 15, [](C& c, size_t n) { c.rresize(n + 9, T(1)); c.rresize(n / 2, T(1)); });
        row(LIN, "clear", 15, [](C& c, size_t) { c.clear(); });
        row(LIN, "push_back x n", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) c.push_back(T(1)); }); row(LIN, "push_front x n", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) c.push_front(T(1)); });
        row(LIN, "pop_front x n", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) c.pop_front(); }); row(LIN, "pop_back x n", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) c.pop_back(); });
        row(LIN, "n x (push_back, pop_front)", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) { c.push_back(T(1)); c.pop_front(); } });
        row(LIN, "n x (pop_back, push_back)", 15, [](C& c, size_t n) { for (size_t k = 0; k < n; ++k) { c.pop_back(); c.push_back(T(1)); } });
    }
    void fixed_only() {         // operations that are constant or local only in the ordinary container
        row(CONST, "push_back", 15, [](C& c, size_t) { c.push_back(T(1)); }); row(CONST, "push_front", 15, [](C& c, size_t) { c.push_front(T(1)); });
        row(CONST, "pop_back", 15, [](C& c, size_t) { c.pop_back(); }); row(CONST, "pop_front", 15, [](C& c, size_t) { c.pop_front(); });
        row(CONST, "insert(end-5)", 15, [](C& c, size_t) { c.insert(c.end() - 5, T(1)); }); row(CONST, "rinsert(begin+5)", 15, [](C& c, size_t) { c.rinsert(c.begin() + 5, T(1)); });
        row(CONST, "insert(end-5,3)", 15, [](C& c, size_t) { c.insert(c.end() - 5, 3, T(1)); }); row(CONST, "rinsert(begin+5,3)", 15, [](C& c, size_t) { c.rinsert(c.begin() + 5, 3, T(1)); });
        row(CONST, "erase(end-5)", 15, [](C& c, size_t) { c.erase(c.end() - 5); }); row(CONST, "rerase(begin+5)", 15, [](C& c, size_t) { c.rerase(c.begin() + 5); });
        row(CONST, "erase(last 5)", 15, [](C& c, size_t) { c.erase(c.end() - 5, c.end()); }); row(CONST, "rerase(first 5)", 15, [](C& c, size_t) { c.rerase(c.begin(), c.begin() + 5); });
        row(CONST, "erase_begin(5)", 15, [](C& c, size_t) { c.erase_begin(5); }); row(CONST, "erase_end(5)", 15, [](C& c, size_t) { c.erase_end(5); });
        row(CONST, "resize(-5)", 15, [](C& c, size_t n) { c.resize(n - 5, T(1)); }); row(CONST, "rresize(-5)", 15, [](C& c, size_t n) { c.rresize(n - 5, T(1)); });
        row(CONST, "resize(+5)", 10, [](C& c, size_t n) { c.resize(n + 5, T(1)); }); row(CONST, "rresize(+5)", 10, [](C& c, size_t n) { c.rresize(n + 5, T(1)); });
        row(CONST, "rotate of a full buffer", 5, [](C& c, size_t n) { c.rotate(c.begin() + (long)n / 3); c.rotate(c.begin() + (long)n - 1); });
        row(CONST, "rotate by 5", 15, [](C& c, size_t) { c.rotate(c.begin() + 5); }); row(CONST, "rotate by -5", 15, [](C& c, size_t) { c.rotate(c.end() - 5); }); row(CONST, "rotate by 0", 15, [](C& c, size_t) { c.rotate(c.begin()); });
        row(CONST, "linearize when linear", 3, [](C& c, size_t) { c.linearize(); }); row(CONST, "set_capacity(same)", 15, [](C& c, size_t) { c.set_capacity(c.capacity()); c.rset_capacity(c.capacity()); });
        row(CONST, "construction(capacity)", 15, [](C&, size_t n) { C d(n); });
        if (std::is_scalar<T>::value) { row(CONST, "clear (scalar)", 15, [](C& c, size_t) { c.clear(); }); row(CONST, "erase_begin(n) (scalar)", 15, [](C& c, size_t n) { c.erase_begin(n - 1); }); row(CONST, "erase_end(n) (scalar)", 15, [](C& c, size_t n) { c.erase_end(n - 1); }); }
    }
};

// ---------------------------------------------------------------- growth of the adaptive container
typedef boost::circular_buffer_space_optimized<El, LA<El> > S;
typedef S::capacity_type Cap;
static std::string num(uint64_t a) { return std::to_string(a); }
static size_t lg(size_t n) { size_t k = 0; while (n) { ++k; n /= 2; } return k; }
static void grow_one(size_t cap, size_t mn, size_t N, int how) {
    Ledger b = led; el_ops = 0; const char* nm[] = {"push_back", "push_front", "insert(end)", "rinsert(begin)", "insert(end,2)", "resize(+1)", "alternating pushes"};
    std::string cs = std::string(nm[how]) + " x " + num(N) + " capacity " + num(cap) + " min " + num(mn);
    { S s(Cap(cap, mn)); uint64_t peak = led.held - b.held; 
      for (size_t k = 0; k < N; ++k) { ++n_pushes;
        switch (how) { case 0: s.push_back(El(1)); break; case 1: s.push_front(El(1)); break; case 2: s.insert(s.end(), El(1)); break; case 3: s.rinsert(s.begin(), El(1)); break; case 4: s.insert(s.end(), 2, El(1)); break; case 5: if (s.size() < cap) s.resize(s.size() + 1, El(1)); else s.push_back(El(1)); break; case 6: if (k % 3) s.push_back(El(1)); else s.push_front(El(1)); break; }
        uint64_t h = led.held - b.held; if (h > peak) peak = h;
        if (h > std::max<uint64_t>(mn, 4 * s.size() + 8) || h > cap) { viol("mem-policy", "growth-bounds", cs, "memory for " + num(h) + " elements with size " + num(s.size())); return; } }
      uint64_t al = led.allocs - b.allocs; n_reallocs += al;
      uint64_t lim = 3 * lg(cap) + 6;
      if (al > lim) viol("mem-policy", "growth-allocations", cs, num(al) + " allocations; a predictively growing buffer needs about " + num(lg(cap)));
      if (el_ops > 12 * N + 100 * lg(cap)) viol("cost", "growth-work", cs, num(el_ops) + " element operations for " + num(N) + " insertions");
      // and back down
      Ledger d = led; el_ops = 0; size_t m = s.size();
      while (!s.empty()) { ++n_pushes; switch (how % 4) { case 0: s.pop_back(); break; case 1: s.pop_front(); break; case 2: s.erase(s.end() - 1); break; default: s.rerase(s.begin()); }
        uint64_t h = led.held - b.held; if (h > std::max<uint64_t>(mn, 4 * s.size() + 8)) { viol("mem-policy", "shrink-bounds", cs, "memory for " + num(h) + " elements kept with size " + num(s.size()) + " (min_capacity " + num(mn) + ")"); return; } }
      uint64_t al2 = led.allocs - d.allocs; n_reallocs += al2; if (al2 > lim) viol("mem-policy", "shrink-allocations", cs, num(al2) + " allocations while removing " + num(m) + " elements one by one");
      if (el_ops > 8 * m + 100) viol("cost", "shrink-work", cs, num(el_ops) + " element operations for " + num(m) + " removals");
    }
    if (led.held != b.held) viol("mem-policy", "leak", cs, "memory not returned");
}
// one element in, one element out, at every size: no reallocation each time around
static void oscillate(size_t cap, size_t mn, bool rising) {
    S s(Cap(cap, mn)); if (!rising) s.resize(cap, El(0));
    for (size_t k = 0; k <= cap; ++k) {
        for (int how = 0; how < 4; ++how) {
            if (s.size() - (s.size() == cap) == 0) continue;         // going empty may release everything
            Ledger b = led; for (int q = 0; q < 12; ++q) { ++n_alter;
                if (s.size() < cap) { switch (how) { case 0: s.push_back(El(1)); s.pop_front(); break; case 1: s.push_front(El(1)); s.pop_back(); break; case 2: s.insert(s.begin() + (long)s.size() / 2, El(1)); s.erase(s.begin()); break; default: s.rinsert(s.end(), 1, El(1)); s.rerase(s.end() - 1); } }
                else { switch (how) { case 0: s.pop_front(); s.push_back(El(1)); break; case 1: s.pop_back(); s.push_front(El(1)); break; case 2: s.erase(s.begin() + (long)s.size() / 2); s.insert(s.end(), El(1)); break; default: s.rerase(s.begin()); s.rinsert(s.begin(), El(1)); } } }
            if (led.allocs - b.allocs > 4) { viol("mem-policy", "thrashing", "oscillating around size " + num(s.size()) + " capacity " + num(cap) + " min " + num(mn), num(led.allocs - b.allocs) + " reallocations in 12 rounds of adding and removing one element"); return; }
        }
        if (rising) { if (s.size() < cap) s.push_back(El(1)); } else if (!s.empty()) s.pop_front();
    }
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want_ = argv[i + 1];
    auto arg = [&](const char* n, unsigned long long d) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], n)) return std::strtoull(argv[i + 1], 0, 0); return d; };
    unsigned part = (unsigned)arg("-part", 31); size_t top = (size_t)arg("-cap", 300);
    if (part & 1) { Steps<boost::circular_buffer<int> > s; s.name = "cb<int>"; s.observers(); s.fixed_only(); }
    if (part & 2) { Steps<boost::circular_buffer<El> > s; s.name = "cb<class>"; s.observers(); s.fixed_only(); }
    if (part & 4) { Steps<boost::circular_buffer_space_optimized<int> > s; s.name = "so<int>"; s.observers(); Steps<boost::circular_buffer_space_optimized<El> > t; t.name = "so<class>"; t.observers(); }
    if (part & 8) { size_t caps[] = {1, 2, 3, 5, 7, 8, 9, 16, 31, 100, 1000, 4097, 30000}; for (size_t cap : caps) for (int how = 0; how < 7; ++how) { grow_one(cap, 0, cap + cap / 2, how); grow_one(cap, cap / 3, cap, how); grow_one(cap, cap, cap, how); } }
    if (part & 16) for (size_t cap = 1; cap <= top; cap += cap < 70 ? 1 : 29) for (int r = 0; r < 2; ++r) { oscillate(cap, 0, r); oscillate(cap, cap / 4, r); if (cap > 2) oscillate(cap, cap - 1, r); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"growth\",\"cases\":%llu,\"distinct\":%llu,\"rows\":%llu,\"measurements\":%llu,\"steps\":%llu,\"insertions_and_removals\":%llu,\"allocations\":%llu,\"oscillations\":%llu}\n", (unsigned long long)(n_meas + n_pushes + n_alter), (unsigned long long)(n_rows + n_pushes), (unsigned long long)n_rows, (unsigned long long)n_meas, (unsigned long long)g_steps, (unsigned long long)n_pushes, (unsigned long long)n_reallocs, (unsigned long long)n_alter);
    return nwanted ? 1 : 0;
}

// Debug support (BOOST_CB_ENABLE_DEBUG): part "misuse" commits every misuse it can think of, each in a
// forked child whose assertion handler leaves with a known status; part "registry" keeps many iterators
// alive over several containers, checks each against a model of the documented invalidation after every
// step and expects no report for valid use.
#include <boost/circular_buffer.hpp>
#include "mon.hpp"
#include "ranges.hpp"
#include <set>
#include <map>
#include <algorithm>
#include <sys/wait.h>
#include <fcntl.h>
using namespace mon;
static bool in_child = false; static long hits = 0; static char hit_text[200];
namespace boost {
void assertion_failed(char const* e, char const*, char const*, long l) { if (in_child) _exit(42); if (!hits++) std::snprintf(hit_text, sizeof hit_text, "%.150s at line %ld", e, l); }
void assertion_failed_msg(char const* e, char const*, char const* f, char const* fn, long l) { assertion_failed(e, f, fn, l); }
}
static uint64_t n_misuse = 0, n_detected = 0, n_steps = 0, n_probe_valid = 0, n_probe_invalid = 0, n_maxlive = 0;
static std::set<uint64_t> distinct; static std::map<std::string, uint64_t> kinds;
static unsigned shard = 0, nshard = 1, counter = 0;

template <class C> typename std::enable_if<!std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }
template <class C> struct IsSO { enum { v = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> void fill(C& x, size_t cap, size_t off, size_t n, int base) {
    typedef typename C::value_type T;
    for (size_t k = 0; cap && k < off; ++k) { x.push_back(T(1)); x.pop_front(); }
    for (size_t k = 0; k < n; ++k) x.push_back(T(base + (int)k));
}
// runs f in a child: it must leave through the assertion handler
template <class F> void misuse(const char* cfg, const char* what, size_t cap, size_t off, size_t n, const F& f) {
    if (counter++ % nshard != shard) return;
    char b[250]; std::snprintf(b, sizeof b, "misuse:%s:%zu,%zu,%zu:%s", cfg, cap, off, n, what); case_spec() = b; op_text() = what;
    if (n_misuse % 1000 == 7) sample_case();
    case_failed() = false; ++n_misuse; ++kinds[what]; distinct.insert(std::hash<std::string>()(case_spec())); progress() = progress() + 1;
    std::fflush(0);
    pid_t p = fork();
    if (p == 0) { in_child = true; struct itimerval z = {}; setitimer(ITIMER_REAL, &z, 0); for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL); alarm(20); int fd = open("/dev/null", 1); dup2(fd, 1); dup2(fd, 2); try { f(); } catch (...) { _exit(3); } _exit(0); }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) < 0) { std::perror("fork"); std::exit(2); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { ++n_detected; return; }
    char key[150]; std::snprintf(key, sizeof key, "undetected-%s", what);
    if (WIFSIGNALED(st)) viol("debug", key, "%s on a container with capacity %zu, offset %zu, size %zu is not reported by the debug support: the program dies of signal %d", what, cap, off, n, WTERMSIG(st));
    else viol("debug", key, "%s on a container with capacity %zu, offset %zu, size %zu is not reported by the debug support", what, cap, off, n);
}
#define BAD(text, ...) misuse(cfg, text, cap, off, n, [&] { C x(mkcap<C>(cap, 0)); fill(x, cap, off, n, 10); const C& cx = x; (void)cx; __VA_ARGS__; })
static volatile long sink_;
template <class T> struct InputIt { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T& reference; typedef const T* pointer; const T* b; long n; InputIt(const T* p, long k) : b(p), n(k) {}
    reference operator*() const { return b[n]; } InputIt& operator++() { ++n; return *this; } InputIt operator++(int) { InputIt t(*this); ++n; return t; } bool operator==(const InputIt& o) const { return n == o.n; } bool operator!=(const InputIt& o) const { return n != o.n; } };
template <class T> void use(const T& v) { sink_ = sink_ + (long)sizeof(v); }

template <class C, class I> void bad_pos_one(const char* cfg, const char* kind, size_t cap, size_t off, size_t n, I make, bool is_end, bool mut_) {
    typedef typename C::value_type T; char t[120]; (void)mut_;
    // make(x, use): calls use(bad iterator) while everything it refers to is still around
#define POS(name, ...) { std::snprintf(t, sizeof t, "%s with %s", name, kind); BAD(t, { static T v(5); (void)v; make(x, [&](typename C::iterator it) { typename C::const_iterator ci(it); (void)ci; __VA_ARGS__; }); }); }
    T arr[3] = {T(1), T(2), T(3)};
    POS("erase(pos)", x.erase(it));
    POS("erase(const pos)", x.erase(it));
    POS("rotate", x.rotate(ci));
    if (!IsSO<C>::v || n) POS("rerase(pos)", x.rerase(it));
    if (is_end) return;
    POS("insert(pos, item)", x.insert(it, v));
    POS("insert(pos, rvalue)", x.insert(it, T(4)));
    POS("insert(pos)", x.insert(it));
    POS("insert(pos, n, item)", x.insert(it, 2, v));
    POS("insert(pos, range)", x.insert(it, arr, arr + 3));
    POS("insert(pos, single-pass range)", x.insert(it, InputIt<T>(arr, 0), InputIt<T>(arr, 2)));
    POS("rinsert(pos, item)", x.rinsert(it, v));
    POS("rinsert(pos, rvalue)", x.rinsert(it, T(4)));
    POS("rinsert(pos)", x.rinsert(it));
    POS("rinsert(pos, n, item)", x.rinsert(it, 2, v));
    POS("rinsert(pos, range)", x.rinsert(it, arr, arr + 3));
    POS("rinsert(pos, single-pass range)", x.rinsert(it, InputIt<T>(arr, 0), InputIt<T>(arr, 2)));
    POS("erase(bad, end)", x.erase(it, x.end()));
    POS("erase(begin, bad)", x.erase(x.begin(), it));
    POS("rerase(bad, end)", x.rerase(it, x.end()));
    POS("rerase(begin, bad)", x.rerase(x.begin(), it));
    // iterator operations
    POS("begin() == bad", use(x.begin() == it)); POS("bad == begin()", use(it == x.begin())); POS("end() != bad", use(x.end() != it)); POS("cbegin < bad", use(cx.begin() < it));
    POS("bad < end", use(it < x.end())); POS("bad > begin", use(it > x.begin())); POS("bad <= begin", use(it <= x.begin())); POS("bad >= end", use(it >= x.end()));
    POS("begin - bad", use(x.begin() - it)); POS("bad - begin", use(it - x.begin())); POS("const bad - const begin", use(ci - cx.begin())); POS("const bad == const end", use(ci == cx.end()));
    POS("bad == const begin", use(it == cx.begin())); POS("const begin != bad", use(cx.begin() != it));
#undef POS
}
template <class C, class I> void bad_iter_one(const char* cfg, const char* kind, size_t cap, size_t off, size_t n, I make) {
    char t[120];
#define POS(name, ...) { std::snprintf(t, sizeof t, "%s with %s", name, kind); BAD(t, make(x, [&](typename C::iterator it) { typename C::const_iterator ci(it); (void)ci; __VA_ARGS__; })); }
    POS("*it", use(*it)); POS("*const it", use(*ci)); POS("it->", use(it.operator->())); POS("const it->", use(ci.operator->())); POS("it[0]", use(it[0]));
    POS("++it", ++it); POS("it++", it++); POS("++const it", ++ci);
#undef POS
}
struct Make0 { template <class C, class F> void operator()(C&, F f) const { typename C::iterator it; f(it); } };
struct MakeForeignBegin { template <class C, class F> void operator()(C&, F f) const { typedef typename C::value_type T; C y(mkcap<C>(4, 0)); y.push_back(T(1)); y.push_back(T(2)); f(y.begin()); } };
struct MakeForeignMid { template <class C, class F> void operator()(C&, F f) const { typedef typename C::value_type T; C y(mkcap<C>(4, 0)); y.push_back(T(1)); y.push_back(T(2)); f(y.begin() + 1); } };
struct MakeForeignEnd { template <class C, class F> void operator()(C&, F f) const { typedef typename C::value_type T; C y(mkcap<C>(4, 0)); y.push_back(T(1)); y.push_back(T(2)); f(y.end()); } };
struct MakeCopyOf { template <class C, class F> void operator()(C& x, F f) const { C y(x); f(y.begin()); } };
struct MakeInvalid { template <class C, class F> void operator()(C& x, F f) const { typedef typename C::value_type T; x.push_back(T(9)); typename C::iterator it = x.end() - 1; x.pop_back(); f(it); } };
struct MakeInvalidFront { template <class C, class F> void operator()(C& x, F f) const { typedef typename C::value_type T; x.push_front(T(9)); typename C::iterator it = x.begin(), other = x.begin(), z; z = it; x.pop_front(); f(z); } };
struct MakeInvalidConv { template <class C, class F> void operator()(C& x, F f) const { typename C::iterator it = x.begin() , k; { typename C::iterator a(it), b(a); k = b; } x.clear(); x.push_back(typename C::value_type(3)); f(k); } };
struct MakeSwapped { template <class C, class F> void operator()(C& x, F f) const { C y(x); typename C::iterator it = x.begin(); x.swap(y); f(it); } };
struct MakeSwappedEnd { template <class C, class F> void operator()(C& x, F f) const { C y(x); typename C::iterator it = x.end(); swap(x, y); f(it); } };
struct MakeErased { template <class C, class F> void operator()(C& x, F f) const { typename C::iterator it = x.end() - 1; x.erase(x.end() - 1); f(it); } };
struct MakeAssigned { template <class C, class F> void operator()(C& x, F f) const { C y(x); typename C::iterator it = x.begin(); x = y; f(it); } };
struct MakeDead { template <class C, class F> void operator()(C& x, F f) const { C* y = new C(x); typename C::iterator it = y->begin(); delete y; f(it); } };
struct MakeDeadEnd { template <class C, class F> void operator()(C& x, F f) const { C* y = new C(x); typename C::iterator it = y->end(); delete y; f(it); } };
struct MakeEnd { template <class C, class F> void operator()(C& x, F f) const { f(x.end()); } };
struct MakeSetCap { template <class C, class F> void operator()(C& x, F f) const { typename C::iterator it = x.begin(); x.set_capacity(mkcap<C>(x.capacity() + 3, 0)); f(it); } };

template <class C> void so_cases(const char* cfg, size_t cap, size_t off, size_t n, std::true_type) {
    typedef typename C::value_type T; typedef typename C::capacity_type CT;
    if (off || n) return;
    T v(5);
    BAD("capacity_type with a minimum above the capacity", use(CT(cap, cap + 1)));
    BAD("constructor with capacity below n", C y(CT(cap, 0), cap + 1, v));
    BAD("assign(capacity, n, item) with capacity below n", x.assign(CT(cap, cap / 2), cap + 1, v));
}
template <class C> void so_cases(const char* cfg, size_t cap, size_t off, size_t n, std::false_type) {
    typedef typename C::value_type T; T v(5);
    BAD("erase_begin(size + 1)", x.erase_begin(n + 1)); BAD("erase_end(size + 1)", x.erase_end(n + 1)); BAD("erase_begin(huge)", x.erase_begin((size_t)-1)); BAD("erase_end(huge)", x.erase_end((size_t)-1));
    if (off || n) return;
    BAD("constructor with capacity below n", C y(cap, cap + 1, v));
    BAD("assign(capacity, n, item) with capacity below n", x.assign(cap, cap + 1, v));
}
template <class C> void states(const char* cfg, size_t cap, size_t off, size_t n) {
    typedef typename C::value_type T; T arr[4] = {T(1), T(2), T(3), T(4)};
    so_cases<C>(cfg, cap, off, n, std::integral_constant<bool, IsSO<C>::v>());
    if (n == 0) { BAD("front() when empty", use(x.front())); BAD("back() when empty", use(x.back())); BAD("const front() when empty", use(cx.front())); BAD("const back() when empty", use(cx.back())); BAD("pop_front() when empty", x.pop_front()); BAD("pop_back() when empty", x.pop_back());
        BAD("*begin() when empty", use(*x.begin())); BAD("*cbegin when empty", use(*cx.begin())); BAD("*rbegin() when empty", use(*x.rbegin())); BAD("++begin() when empty", ++x.begin()); BAD("--end() when empty", --x.end()); }
    BAD("x[size]", use(x[n])); BAD("const x[size]", use(cx[n])); BAD("x[size + 3]", use(x[n + 3])); BAD("x[-1]", use(x[(size_t)-1])); BAD("const x[-1]", use(cx[(size_t)-1]));
    if (cap > n) BAD("x[capacity - 1]", use(x[cap - 1]));
    BAD("++end", { auto it = x.end(); ++it; }); BAD("end++", { auto it = x.end(); it++; }); BAD("--begin", { auto it = x.begin(); --it; }); BAD("begin--", { auto it = x.begin(); it--; }); BAD("--const begin", { auto it = cx.begin(); --it; });
    BAD("end + 1", use(x.end() + 1)); BAD("1 + end", use(1 + x.end())); BAD("begin - 1", use(x.begin() - 1)); BAD("begin + (size + 1)", use(x.begin() + (long)n + 1)); BAD("const begin + (size + 1)", use(cx.begin() + (long)n + 1)); BAD("end - (size + 1)", use(x.end() - ((long)n + 1)));
    BAD("end += 2", { auto it = x.end(); it += 2; }); BAD("begin -= 2", { auto it = x.begin(); it -= 2; }); BAD("begin += -1", { auto it = x.begin(); it += -1; }); BAD("end -= -1", { auto it = x.end(); it -= -1; });
    BAD("begin[size]", use(x.begin()[(long)n])); BAD("begin[-1]", use(x.begin()[-1])); BAD("end[0]", use(x.end()[0])); BAD("const end[1]", use(cx.end()[1])); BAD("*rend", use(*x.rend())); BAD("++rend", { auto it = x.rend(); ++it; }); BAD("--rbegin", { auto it = x.rbegin(); --it; }); BAD("rbegin[size]", use(x.rbegin()[(long)n]));
    for (size_t k = 0; k <= n; k += (n > 3 ? n : 1)) { long a = (long)k; BAD("position + beyond end", use(x.begin() + a + ((long)n - a + 1))); BAD("position - beyond begin", use((x.begin() + a) - (a + 1))); BAD("position[beyond end]", use((x.begin() + a)[(long)n - a])); }
    if (n >= 1) { BAD("erase(end, begin)", x.erase(x.end(), x.begin())); BAD("rerase(end, begin)", x.rerase(x.end(), x.begin())); BAD("erase(reversed)", x.erase(x.begin() + 1, x.begin())); BAD("rerase(reversed)", x.rerase(x.begin() + 1, x.begin())); }
    if (cap) { BAD("insert(pos, reversed range)", x.insert(x.begin(), arr + 3, arr + 1)); BAD("rinsert(pos, reversed range)", x.rinsert(x.end(), arr + 3, arr + 1)); }
    BAD("constructor from a reversed range", C y(arr + 2, arr)); BAD("constructor(capacity, reversed range)", C y(mkcap<C>(cap, 0), arr + 2, arr)); BAD("assign(reversed range)", x.assign(arr + 2, arr)); BAD("assign(capacity, reversed range)", x.assign(mkcap<C>(cap + 1, 0), arr + 2, arr));
    bad_pos_one<C>(cfg, "a default-constructed iterator", cap, off, n, Make0(), false, true);
    bad_pos_one<C>(cfg, "begin() of another container", cap, off, n, MakeForeignBegin(), false, true);
    bad_pos_one<C>(cfg, "an iterator into another container", cap, off, n, MakeForeignMid(), false, true);
    bad_pos_one<C>(cfg, "end() of another container", cap, off, n, MakeForeignEnd(), false, true);
    bad_pos_one<C>(cfg, "end()", cap, off, n, MakeEnd(), true, true);
    bad_iter_one<C>(cfg, "a default-constructed iterator", cap, off, n, Make0());
    bad_iter_one<C>(cfg, "end()", cap, off, n, MakeEnd());
#define BOTH(M, text) { bad_pos_one<C>(cfg, text, cap, off, n, M(), false, true); bad_iter_one<C>(cfg, text, cap, off, n, M()); }
    if (cap > n) { BOTH(MakeInvalid, "an iterator to a popped element"); BOTH(MakeInvalidFront, "a copy of an iterator to a popped element"); }
    if (n) { bad_pos_one<C>(cfg, "begin() of a copy of the container", cap, off, n, MakeCopyOf(), false, true); BOTH(MakeInvalidConv, "an assigned iterator to a cleared element"); BOTH(MakeSwapped, "an iterator obtained before swap"); BOTH(MakeErased, "an iterator to an erased element"); BOTH(MakeAssigned, "an iterator obtained before assignment"); BOTH(MakeDead, "an iterator into a destroyed container"); BOTH(MakeSetCap, "an iterator obtained before set_capacity"); }
    BOTH(MakeSwappedEnd, "an end iterator obtained before swap"); BOTH(MakeDeadEnd, "end() of a destroyed container");
}

// ---------------------------------------------------------------- many live iterators
template <class C> struct Registry {
    typedef typename C::value_type T; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
    struct Slot { It* it; CIt* ci; int cont; long id; };    // id: identity of the element, -1 = end(), -2 = invalid, -3 = default constructed
    enum { N = 3 };
    C* c[N]; std::vector<long> m[N]; std::vector<Slot> s; Rng r; long next; size_t cap[N];
    Registry(uint64_t seed) : r(seed), next(0) { for (int i = 0; i < N; ++i) { c[i] = 0; make(i); } }
    ~Registry() { for (size_t k = 0; k < s.size(); ++k) drop(s[k]); for (int i = 0; i < N; ++i) delete c[i]; }
    void make(int i) { cap[i] = 1 + r.below(8); c[i] = new C(mkcap<C>(cap[i], r.below(cap[i] + 1))); m[i].clear(); }
    static void drop(Slot& z) { delete z.it; delete z.ci; z.it = 0; z.ci = 0; }
    void kill(int i, bool end_too) { for (Slot& z : s) if (z.cont == i && (z.id >= 0 || (end_too && z.id == -1))) z.id = -2; }
    void kill_id(int i, long id) { if (IsSO<C>::v) kill(i, false); else for (Slot& z : s) if (z.cont == i && z.id == id) z.id = -2; }
    size_t at(int i, long id) { return (size_t)(std::find(m[i].begin(), m[i].end(), id) - m[i].begin()); }
    long fresh() { return ++next; }
    void probe(Slot& z) {
        bool b = false; long a = hits; volatile const void* q = 0; (void)q;
        if (z.id == -2) {
            ++n_probe_invalid; if (z.it) { b = *z.it == *z.it; } else b = *z.ci == *z.ci;
            if (hits == a) viol("debug", "missed-invalidation", "an invalidated iterator into container %d is compared without a report", z.cont); hits = a; return;
        }
        ++n_probe_valid;
        if (z.id == -3) { if (!(z.it ? *z.it == It() : *z.ci == CIt())) viol("debug", "default-constructed", "default-constructed iterators differ"); }
        else if (z.id == -1) { if (!(z.it ? *z.it == c[z.cont]->end() : *z.ci == c[z.cont]->end())) viol("debug", "end", "an iterator kept equal to end() differs from it"); }
        else { size_t k = at(z.cont, z.id); const T& e = z.it ? **z.it : **z.ci; if (&e != &(*c[z.cont])[k] || (z.it ? *z.it - c[z.cont]->begin() : *z.ci - c[z.cont]->begin()) != (long)k) viol("debug", "wrong-element", "a kept iterator refers to another element than the %zuth", k); }
        (void)b; if (hits != a) { viol("debug", "false-assert", "assertion reported for valid use of an iterator: %s", hit_text); hits = a; }
    }
    void step() {
        int i = (int)r.below(N); C& x = *c[i]; std::vector<long>& v = m[i]; ++n_steps; long a = hits; char t[60] = ""; size_t w = r.below(100);
        if (w < 22) { Slot z = {0, 0, i, -1}; size_t k = r.below(v.size() + 1); if (k < v.size()) z.id = v[k];
            switch (r.below(4)) { case 0: z.it = new It(x.begin() + (long)k); break; case 1: z.ci = new CIt(const_cast<const C&>(x).begin() + (long)k); break; case 2: { It q = x.end(); q -= (long)(v.size() - k); z.it = new It(q); break; } default: z.ci = new CIt(x.begin() + (long)k); } s.push_back(z); std::snprintf(t, sizeof t, "obtain %zu", k); }
        else if (w < 25) { Slot z = {new It(), 0, i, -3}; if (r.chance(40)) { drop(z); z.ci = new CIt(); } s.push_back(z); std::snprintf(t, sizeof t, "default-construct"); }
        else if (w < 35 && s.size()) { Slot& o = s[r.below(s.size())]; Slot z = o; z.it = 0; z.ci = 0; if (o.it && r.chance(60)) z.it = new It(*o.it); else if (o.it) z.ci = new CIt(*o.it); else z.ci = new CIt(*o.ci); s.push_back(z); std::snprintf(t, sizeof t, "copy"); }
        else if (w < 50 && s.size()) { Slot& o = s[r.below(s.size())]; Slot& z = s[r.below(s.size())]; if (z.it && o.it) *z.it = *o.it; else if (z.ci && o.ci) *z.ci = *o.ci; else if (z.ci && o.it) *z.ci = *o.it; else return; z.cont = o.cont; z.id = o.id; std::snprintf(t, sizeof t, "assign"); }
        else if (w < 58 && s.size()) { size_t k = r.below(s.size()); drop(s[k]); s[k] = s.back(); s.pop_back(); std::snprintf(t, sizeof t, "destroy an iterator"); }
        else if (w < 62 && s.size()) { Slot& z = s[r.below(s.size())]; if (z.id >= 0) { size_t k = at(z.cont, z.id); if (z.it) ++*z.it; else ++*z.ci; z.id = k + 1 < m[z.cont].size() ? m[z.cont][k + 1] : -1; std::snprintf(t, sizeof t, "increment"); } }
        else if (w < 65 && s.size()) { Slot& z = s[r.below(s.size())]; if (z.id >= -1) { size_t k = z.id == -1 ? m[z.cont].size() : at(z.cont, z.id); if (k) { if (z.it) --*z.it; else --*z.ci; z.id = m[z.cont][k - 1]; std::snprintf(t, sizeof t, "decrement"); } } }
        else if (w < 73) { bool full = v.size() == cap[i]; if (full) kill_id(i, v[0]); else if (IsSO<C>::v) kill(i, false); long id = fresh(); x.push_back(T((int)id)); if (full) v.erase(v.begin()); v.push_back(id); std::snprintf(t, sizeof t, "push_back"); }
        else if (w < 78) { bool full = v.size() == cap[i]; if (full) kill_id(i, v.back()); else if (IsSO<C>::v) kill(i, false); long id = fresh(); x.push_front(T((int)id)); if (full) v.pop_back(); v.insert(v.begin(), id); std::snprintf(t, sizeof t, "push_front"); }
        else if (w < 82 && v.size()) { kill_id(i, v[0]); x.pop_front(); v.erase(v.begin()); std::snprintf(t, sizeof t, "pop_front"); }
        else if (w < 86 && v.size()) { kill_id(i, v.back()); x.pop_back(); v.pop_back(); std::snprintf(t, sizeof t, "pop_back"); }
        else if (w < 90 && v.size()) { size_t k = r.below(v.size()); if (IsSO<C>::v) kill(i, false); else for (size_t q = k; q < v.size(); ++q) kill_id(i, v[q]); x.erase(x.begin() + (long)k); v.erase(v.begin() + (long)k); std::snprintf(t, sizeof t, "erase"); }
        else if (w < 92) { kill(i, false); x.clear(); v.clear(); std::snprintf(t, sizeof t, "clear"); }
        else if (w < 95) { int j = (int)r.below(N); if (i == j) return; kill(i, true); kill(j, true); if (r.chance(50)) x.swap(*c[j]); else swap(x, *c[j]); m[i].swap(m[j]); std::swap(cap[i], cap[j]); std::snprintf(t, sizeof t, "swap"); }
        else if (w < 97) { kill(i, true); delete c[i]; make(i); std::snprintf(t, sizeof t, "destroy and recreate"); }
        else if (w < 98) { size_t nc = v.size() + r.below(4); if (nc == 0) nc = 1; if (IsSO<C>::v && nc == cap[i]) return; if (nc != cap[i]) kill(i, false); x.set_capacity(mkcap<C>(nc, 0)); cap[i] = nc; std::snprintf(t, sizeof t, "set_capacity"); }
        else { int j = (int)r.below(N); if (i == j) return; kill(i, false); x = *c[j]; v = m[j]; cap[i] = cap[j]; std::snprintf(t, sizeof t, "copy assignment"); }
        if (t[0]) { op_text() = t; if (hits != a) { viol("debug", "false-assert", "%s on valid arguments is reported: %s", t, hit_text); hits = a; } }
    }
    void run(size_t steps) {
        for (size_t k = 0; k < steps && !case_failed(); ++k) {
            step(); progress() = progress() + 1;
            if (s.size() > n_maxlive) n_maxlive = s.size();
            while (s.size() > 24) { size_t q = r.below(s.size()); drop(s[q]); s[q] = s.back(); s.pop_back(); }
            for (Slot& z : s) { probe(z); if (case_failed()) break; }
        }
    }
};
int main(int argc, char** argv) {
    install();
    auto arg = [&](const char* name, unsigned long long def) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return std::strtoull(argv[i + 1], 0, 0); return def; };
    std::string part = "misuse"; for (int i = 1; i + 1 < argc; ++i) { if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1]; if (!std::strcmp(argv[i], "-part")) part = argv[i + 1]; }
    shard = (unsigned)arg("-shard", 0); nshard = (unsigned)arg("-nshard", 1); size_t maxcap = arg("-cap", 3);
    if (part == "misuse") {
        for (size_t cap = 0; cap <= maxcap; ++cap) for (size_t n = 0; n <= cap; ++n) for (size_t off = 0; off < (cap ? cap : 1); off += (cap > 2 ? 2 : 1)) {
            states<boost::circular_buffer<int> >("cb<int>", cap, off, n); states<boost::circular_buffer_space_optimized<int> >("so<int>", cap, off, n);
            if (cap <= 2) { states<boost::circular_buffer<ElemN> >("cb<class>", cap, off, n); states<boost::circular_buffer_space_optimized<ElemN> >("so<class>", cap, off, n); }
        }
    } else {
        unsigned long long nh = arg("-n", 200), steps = arg("-steps", 300), seed = arg("-seed", 1);
        for (unsigned long long h = shard; h < nh; h += nshard) {
            char b[80]; std::snprintf(b, sizeof b, "registry:%llu", seed * 100003 + h); case_spec() = b; op_text() = "start"; case_failed() = false; distinct.insert(seed * 100003 + h);
            { Registry<boost::circular_buffer<int> > g(seed * 100003 + h); g.run(steps); } if (!case_failed()) { Registry<boost::circular_buffer_space_optimized<int> > g(seed * 100003 + h); g.run(steps); }
            if (!case_failed()) { Registry<boost::circular_buffer<ElemN> > g(seed * 100003 + h); g.run(steps); } if (case_failed()) reset_world();
        }
    }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"debug-%s\",\"cases\":%llu,\"distinct\":%zu,\"misuses\":%llu,\"reported\":%llu,\"kinds_of_misuse\":%zu,\"registry_steps\":%llu,\"probes_of_valid_iterators\":%llu,\"probes_of_invalidated_iterators\":%llu,\"live_iterators_max\":%llu}\n", part.c_str(), (unsigned long long)(n_misuse + (part == "misuse" ? 0 : distinct.size())), distinct.size(), (unsigned long long)n_misuse, (unsigned long long)n_detected, kinds.size(), (unsigned long long)n_steps, (unsigned long long)n_probe_valid, (unsigned long long)n_probe_invalid, (unsigned long long)n_maxlive);
    return wanted_count() ? 1 : 0;
}

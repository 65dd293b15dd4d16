// Element types of every kind the documentation admits: seeded histories over each of them, the contents compared with a
// reference sequence of values after every call.  A type only has what the documented requirements ask for the operations used on it.
#include "mon.hpp"
#include <algorithm>
#include <any>
#include <array>
#include <bitset>
#include <complex>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <boost/circular_buffer.hpp>
using namespace mon;
static uint64_t n_cases = 0, n_ops = 0, n_types = 0; static std::map<std::string, uint64_t> op_hits;

// ---------------------------------------------------------------- the types
enum Plain { e0, e1, e7 = 7, ebig = 0x7fffffff };
enum class Scoped : short { a, b };
struct Pod { int a; char b; double c; };
struct Empty {};
inline bool operator==(Empty, Empty) { return true; }
inline bool operator<(Empty, Empty) { return false; }
struct NoDefault { int v; explicit NoDefault(int x) : v(x) {} };                          // nothing but copying
struct CopyOnly { int v; explicit CopyOnly(int x) : v(x) {} CopyOnly(const CopyOnly& o) : v(o.v) {} CopyOnly& operator=(const CopyOnly& o) { v = o.v; return *this; } ~CopyOnly() { v = -5; } };
struct MoveNoDefault { std::unique_ptr<int> p; explicit MoveNoDefault(int x) : p(new int(x)) {} MoveNoDefault(MoveNoDefault&&) = default; MoveNoDefault& operator=(MoveNoDefault&&) = default; };
struct Final final { int v; explicit Final(int x) : v(x) {} };
struct NoNew { int v; explicit NoNew(int x) : v(x) {} static void* operator new(size_t) = delete; static void* operator new(size_t, void*) = delete; static void operator delete(void*) = delete; };
struct Poly { int v; explicit Poly(int x) : v(x) {} Poly(const Poly&) = default; Poly& operator=(const Poly&) = default; virtual ~Poly() {} virtual int get() const { return v; } };
struct Greedy { int v; struct Tag {}; Greedy(Tag, int x) : v(x) {} Greedy(const Greedy&) = default; Greedy(Greedy&&) = default; Greedy& operator=(const Greedy&) = default; Greedy& operator=(Greedy&&) = default;
    template <class U> Greedy(const U&) : v(-777) {} };                                   // converts from anything, like std::any
struct SelfPtr { int v; SelfPtr* me; explicit SelfPtr(int x) : v(x), me(this) {} SelfPtr(const SelfPtr& o) : v(o.me == &o ? o.v : -6), me(this) {} SelfPtr& operator=(const SelfPtr& o) { v = o.me == &o ? o.v : -6; if (me != this) v = -7; return *this; } };
struct alignas(128) Wide { int v; explicit Wide(int x) : v(x) {} };
struct Refs { const int* r; int extra; };
static int ints[4096]; static char chars[4096]; static int f0() { return 0; } template <int N> int fn() { return N; }
struct Members { int m[8]; int a, b, c, d, e, f, g, h; };

template <class T, class = void> struct Z;
#define Z_DEF(TYPE, MK, GET) template <> struct Z<TYPE> { typedef TYPE T; static T mk(int x) { (void)x; return MK; } static int get(const T& e) { (void)e; return GET; } enum { copy = 1, deflt = 1, mod = 0 }; };
#define Z_NODEF(TYPE, MK, GET) template <> struct Z<TYPE> { typedef TYPE T; static T mk(int x) { (void)x; return MK; } static int get(const T& e) { (void)e; return GET; } enum { copy = 1, deflt = 0, mod = 0 }; };
#define Z_MOVE(TYPE, DEFLT, MK, GET) template <> struct Z<TYPE> { typedef TYPE T; static T mk(int x) { return MK; } static int get(const T& e) { return GET; } enum { copy = 0, deflt = DEFLT, mod = 0 }; };
#define Z_MOD(TYPE, M, MK, GET) template <> struct Z<TYPE> { typedef TYPE T; static T mk(int x) { x %= M; return MK; } static int get(const T& e) { return GET; } enum { copy = 1, deflt = 1, mod = M }; };
typedef std::pair<int, std::string> PIS; typedef std::array<int, 5> AI5; typedef std::tuple<int, char, std::string> TUP; typedef std::variant<int, std::string> VAR; typedef std::map<int, int> MAP;
typedef int (*FP)(); typedef int Members::*MP; typedef boost::circular_buffer<int> CBI; typedef boost::circular_buffer_space_optimized<std::string> SOS; typedef std::function<int()> FUN; typedef std::reference_wrapper<const int> RW; typedef std::complex<float> CF;
static FP const fps[8] = {f0, fn<1>, fn<2>, fn<3>, fn<4>, fn<5>, fn<6>, fn<7>};
static MP const mps[8] = {&Members::a, &Members::b, &Members::c, &Members::d, &Members::e, &Members::f, &Members::g, &Members::h};
template <class A> int index_of(const A* a, const A& e, int n) { for (int i = 0; i < n; ++i) if (a[i] == e) return i; return -9; }
inline CBI mkcb(int x) { CBI c(5); for (int i = 0; i < 7; ++i) c.push_back(x + i); return c; } inline int getcb(const CBI& c) { if (c.size() != 5 || c.capacity() != 5) return c.empty() ? 0 : -9; for (int i = 0; i < 5; ++i) if (c[(size_t)i] != c[0] + i) return -9; return c[0] - 2; }
inline SOS mkso(int x) { SOS c(SOS::capacity_type(4, 2)); c.push_front(std::to_string(x) + " a rather long string which needs memory"); return c; } inline int getso(const SOS& c) { return c.empty() ? 0 : std::atoi(c.front().c_str()); }
inline Pod mkpod(int x) { Pod p = {x, (char)x, x / 2.0}; return p; } inline int getpod(const Pod& p) { return p.b == (char)p.a && p.c == p.a / 2.0 ? p.a : -9; }
inline AI5 mkarr(int x) { AI5 a = {{x, x + 1, x + 2, x + 3, x + 4}}; return a; } inline int getarr(const AI5& a) { if (a == AI5{}) return 0; for (int i = 0; i < 5; ++i) if (a[(size_t)i] != a[0] + i) return -9; return a[0]; }
Z_MOD(bool, 2, x != 0, (int)e) Z_MOD(char, 100, (char)x, (int)e) Z_MOD(signed char, 100, (signed char)x, (int)e) Z_DEF(unsigned short, (unsigned short)x, (int)e) Z_DEF(wchar_t, (wchar_t)x, (int)e) Z_DEF(char32_t, (char32_t)x, (int)e)
Z_DEF(unsigned long long, 0x100000000ull * (unsigned)x + (unsigned)x, e >> 32 == (e & 0xffffffffu) ? (int)(e >> 32) : -9) Z_DEF(float, (float)x / 2, (int)(e * 2)) Z_DEF(long double, (long double)x / 3, (int)(e * 3 + 0.5L)) Z_DEF(Plain, (Plain)x, (int)e) Z_DEF(Scoped, (Scoped)x, (int)e)
Z_DEF(const int*, x ? ints + x : (const int*)0, e ? (int)(e - ints) : 0) Z_DEF(const char*, x ? chars + x : (const char*)0, e ? (int)(e - chars) : 0) Z_DEF(void*, x ? (void*)(chars + x) : (void*)0, e ? (int)((char*)e - chars) : 0)
Z_MOD(FP, 8, x ? fps[x] : (FP)0, e ? index_of(fps, e, 8) : 0) Z_MOD(MP, 8, x ? mps[x] : (MP)0, e ? index_of(mps, e, 8) : 0)
Z_DEF(Pod, mkpod(x), getpod(e)) Z_DEF(PIS, PIS(x, std::to_string(x)), e.first == std::atoi(e.second.c_str()) ? e.first : -9) Z_DEF(AI5, mkarr(x), getarr(e)) Z_DEF(std::vector<int>, std::vector<int>(x ? 3 : 0, x), e.empty() ? 0 : e[2]) Z_DEF(std::list<int>, std::list<int>(x ? 2 : 0, x), e.empty() ? 0 : e.back())
Z_DEF(std::shared_ptr<int>, x ? std::make_shared<int>(x) : std::shared_ptr<int>(), e ? *e : 0) Z_DEF(FUN, x ? FUN([x] { return x; }) : FUN(), e ? e() : 0) Z_DEF(std::any, x ? std::any(x) : std::any(), e.has_value() ? std::any_cast<int>(e) : 0) Z_DEF(std::optional<int>, x ? std::optional<int>(x) : std::optional<int>(), e ? *e : 0)
Z_DEF(VAR, x % 2 ? VAR(x) : x ? VAR(std::to_string(x)) : VAR(0), e.index() ? std::atoi(std::get<1>(e).c_str()) : std::get<0>(e)) Z_DEF(TUP, TUP(x, (char)x, std::to_string(x)), std::get<0>(e)) Z_DEF(CF, CF((float)x, 1.0f * (float)x), (int)e.real()) Z_DEF(std::bitset<20>, std::bitset<20>((unsigned)x), (int)e.to_ulong()) Z_DEF(MAP, x ? MAP({{1, x}, {2, x}}) : MAP(), e.empty() ? 0 : e.at(2))
Z_DEF(std::wstring, x ? std::wstring(L"wide ") + std::to_wstring(x) : std::wstring(), e.empty() ? 0 : std::stoi(e.substr(5))) Z_DEF(std::string, x ? std::to_string(x) : std::string(), e.empty() ? 0 : std::atoi(e.c_str())) Z_DEF(CBI, x ? mkcb(x) : CBI(), getcb(e)) Z_DEF(SOS, x ? mkso(x) : SOS(), getso(e)) Z_DEF(std::string_view, x ? std::string_view(chars + x, 3) : std::string_view(), e.empty() ? 0 : (int)(e.data() - chars))
Z_MOD(Empty, 1, Empty(), 0) Z_NODEF(NoDefault, NoDefault(x), e.v) Z_NODEF(CopyOnly, CopyOnly(x), e.v) Z_NODEF(Final, Final(x), e.v) Z_NODEF(NoNew, NoNew(x), e.v) Z_NODEF(Poly, Poly(x), e.get()) Z_NODEF(Greedy, Greedy(Greedy::Tag(), x), e.v) Z_NODEF(SelfPtr, SelfPtr(x), e.me == &e ? e.v : -8) Z_NODEF(Wide, Wide(x), ((uintptr_t)&e) % 128 ? -8 : e.v) Z_NODEF(RW, RW(ints[x]), (int)(&e.get() - ints))
Z_MOVE(MoveNoDefault, 0, MoveNoDefault(x), e.p ? *e.p : -9) Z_MOVE(std::unique_ptr<int>, 1, x ? std::unique_ptr<int>(new int(x)) : std::unique_ptr<int>(), e ? *e : 0) Z_MOVE(std::unique_ptr<int[]>, 1, x ? std::unique_ptr<int[]>(new int[3]{x, x, x}) : std::unique_ptr<int[]>(), e ? e[2] : 0)

// a forward range whose elements are built on the fly and a single-pass one
template <class T> struct Gen { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef T reference; typedef const T* pointer; typedef std::ptrdiff_t difference_type;
    const int* p; explicit Gen(const int* q) : p(q) {} T operator*() const { return Z<T>::mk(*p); } Gen& operator++() { ++p; return *this; } Gen operator++(int) { Gen t(*this); ++p; return t; }
    bool operator==(const Gen& o) const { return p == o.p; } bool operator!=(const Gen& o) const { return p != o.p; } };

template <class C> struct is_so { enum { value = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> typename C::capacity_type mkcap(size_t c, size_t m) { if constexpr (is_so<C>::value) return typename C::capacity_type(c, m); else { (void)m; return c; } }

template <class C> struct Run {
    typedef typename C::value_type T; enum { SO = is_so<C>::value, COPY = Z<T>::copy, DEF = Z<T>::deflt };
    static int nv(int x) { return Z<T>::mod ? x % Z<T>::mod : x; }
    struct M { std::vector<int> v; size_t cap; void front_cut() { if (v.size() > cap) v.erase(v.begin(), v.end() - (long)cap); } void back_cut() { if (v.size() > cap) v.resize(cap); } };
    C* c; C* d; M m, k; const char* name; uint64_t seed; int step; const char* op;
    void fail(const char* what, const C& x, const M& y) {
        std::string got, want; for (size_t i = 0; i < x.size() && i < 40; ++i) got += std::to_string(Z<T>::get(x[i])) + " "; for (size_t i = 0; i < y.v.size() && i < 40; ++i) want += std::to_string(y.v[i]) + " ";
        viol("types", (std::string(SO ? "so:" : "cb:") + name + ":" + op + ":" + what).c_str(), "element type %s, history %llu, step %d, %s: %s; has [%s] capacity %zu, should have [%s] capacity %zu", name, (unsigned long long)seed, step, op, what, got.c_str(), (size_t)x.capacity(), want.c_str(), y.cap);
    }
    bool ok(const C& x, const M& y) {
        if (x.size() != y.v.size()) { fail("size", x, y); return false; }
        if ((size_t)x.capacity() != y.cap) { fail("capacity", x, y); return false; }
        size_t i = 0; for (typename C::const_iterator it = x.begin(); it != x.end(); ++it, ++i) if (Z<T>::get(*it) != y.v[i]) { fail("iteration", x, y); return false; }
        for (i = 0; i < y.v.size(); ++i) if (Z<T>::get(x[i]) != y.v[i] || &x[i] != &x.at(i)) { fail("contents", x, y); return false; }
        typename C::const_array_range a = x.array_one(), b = x.array_two(); if (a.second + b.second != y.v.size()) { fail("array_one/array_two", x, y); return false; }
        for (i = 0; i < y.v.size(); ++i) if (&x[i] != (i < a.second ? a.first + i : b.first + (i - a.second))) { fail("array_one/array_two", x, y); return false; }
        i = y.v.size(); for (typename C::const_reverse_iterator r = x.rbegin(); r != x.rend(); ++r) if (Z<T>::get(*r) != y.v[--i]) { fail("reverse iteration", x, y); return false; }
        if (!y.v.empty() && (Z<T>::get(x.front()) != y.v.front() || Z<T>::get(x.back()) != y.v.back())) { fail("front/back", x, y); return false; }
        return true;
    }
    static bool needs_copy(int o) { return o == 4 || o == 5 || (o >= 12 && o <= 15) || o == 22 || o == 23 || (o >= 26 && o <= 31) || o == 34; }
    void go(uint64_t sd, int steps, size_t maxcap, const char* nm) {
        name = nm; seed = sd; Rng r(sd * 7919 + 13); int next = 1; size_t cap = r.below(maxcap + 1);
        c = new C(mkcap<C>(cap, SO ? r.below(cap + 1) : 0)); d = new C(mkcap<C>(3, 0)); m.cap = cap; m.v.clear(); k.cap = 3; k.v.clear(); ++n_cases;
        auto val = [&] { next = next % 4000 + 1; return nv(next); };
        auto at = [&](size_t i) { return c->begin() + (std::ptrdiff_t)i; };
        for (step = 0; step < steps; ++step) {
            int o = (int)r.below(40); size_t n = m.v.size(), p = r.below(n + 1); op = "?"; ++n_ops;
            if (!COPY && needs_copy(o)) o = (int)r.below(4);
            std::vector<int> xs; for (size_t i = r.below(m.cap + 3); i > 0; --i) xs.push_back(val());
            long exp = -1; typename C::iterator got = c->end(); int x = val();
            switch (o) {
            case 0: case 36: op = "push_back(rvalue)"; c->push_back(Z<T>::mk(x)); if (m.cap) { m.v.push_back(x); m.front_cut(); } break;
            case 1: case 37: op = "push_front(rvalue)"; c->push_front(Z<T>::mk(x)); if (m.cap) { m.v.insert(m.v.begin(), x); m.back_cut(); } break;
            case 2: op = "pop_back"; if (n) { c->pop_back(); m.v.pop_back(); } break;
            case 3: op = "pop_front"; if (n) { c->pop_front(); m.v.erase(m.v.begin()); } break;
            case 4: case 38: op = "push_back(item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); c->push_back(t); if (m.cap) { m.v.push_back(x); m.front_cut(); } } break;
            case 5: case 39: op = "push_front(item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); c->push_front(t); if (m.cap) { m.v.insert(m.v.begin(), x); m.back_cut(); } } break;
            case 6: op = "push_back()"; if constexpr (DEF) { c->push_back(); if (m.cap) { m.v.push_back(0); m.front_cut(); } } break;
            case 7: op = "push_front()"; if constexpr (DEF) { c->push_front(); if (m.cap) { m.v.insert(m.v.begin(), 0); m.back_cut(); } } break;
            case 8: op = "insert(rvalue)"; if (!(n == m.cap && p == 0)) { got = c->insert(at(p), Z<T>::mk(x)); exp = (long)(n == m.cap ? p - 1 : p); m.v.insert(m.v.begin() + (long)p, x); m.front_cut(); } break;
            case 9: op = "rinsert(rvalue)"; if (!(n == m.cap && p == n)) { got = c->rinsert(at(p), Z<T>::mk(x)); exp = (long)p; m.v.insert(m.v.begin() + (long)p, x); m.back_cut(); } break;
            case 10: op = "erase"; if (p < n) { got = c->erase(at(p)); exp = (long)p; m.v.erase(m.v.begin() + (long)p); } break;
            case 11: op = "rerase"; if (p < n) { got = c->rerase(at(p)); exp = p ? (long)p - 1 : 0; m.v.erase(m.v.begin() + (long)p); } break;
            case 12: op = "insert(item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); if (!(n == m.cap && p == 0)) { got = c->insert(at(p), t); exp = (long)(n == m.cap ? p - 1 : p); m.v.insert(m.v.begin() + (long)p, x); m.front_cut(); } } break;
            case 13: op = "rinsert(item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); if (!(n == m.cap && p == n)) { got = c->rinsert(at(p), t); exp = (long)p; m.v.insert(m.v.begin() + (long)p, x); m.back_cut(); } } break;
            case 14: op = "insert(n,item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); c->insert(at(p), xs.size(), t); m.v.insert(m.v.begin() + (long)p, xs.size(), x); m.front_cut(); } break;
            case 15: op = "rinsert(n,item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); c->rinsert(at(p), xs.size(), t); m.v.insert(m.v.begin() + (long)p, xs.size(), x); m.back_cut(); } break;
            case 16: op = "erase(range)"; { size_t q = p + r.below(n - p + 1); got = c->erase(at(p), at(q)); exp = (long)p; m.v.erase(m.v.begin() + (long)p, m.v.begin() + (long)q); } break;
            case 17: op = "rerase(range)"; { size_t q = p + r.below(n - p + 1); if (q > p) { got = c->rerase(at(p), at(q)); exp = p ? (long)p - 1 : 0; m.v.erase(m.v.begin() + (long)p, m.v.begin() + (long)q); } } break;
            case 18: op = "set_capacity"; { size_t nc = r.below(maxcap + 1); c->set_capacity(mkcap<C>(nc, SO ? r.below(nc + 1) : 0)); m.cap = nc; m.back_cut(); } break;
            case 19: op = "rset_capacity"; { size_t nc = r.below(maxcap + 1); c->rset_capacity(mkcap<C>(nc, SO ? r.below(nc + 1) : 0)); m.cap = nc; m.front_cut(); } break;
            case 20: op = "linearize"; { typename C::pointer q = c->linearize(); if (n ? &*q != &c->front() : q != typename C::pointer()) fail("returned pointer", *c, m); if (!c->is_linearized()) fail("is_linearized", *c, m); } break;
            case 21: op = "rotate"; if (p < n) { c->rotate(at(p)); std::rotate(m.v.begin(), m.v.begin() + (long)p, m.v.end()); } break;
            case 22: op = "resize"; if constexpr (COPY) { size_t s = r.below(maxcap + 1); c->resize(s, Z<T>::mk(x)); m.cap = std::max(m.cap, s); m.v.resize(s, x); } break;
            case 23: op = "rresize"; if constexpr (COPY) { size_t s = r.below(maxcap + 1); c->rresize(s, Z<T>::mk(x)); m.cap = std::max(m.cap, s); if (s > n) m.v.insert(m.v.begin(), s - n, x); else m.v.erase(m.v.begin(), m.v.end() - (long)s); } break;
            case 24: op = "swap"; c->swap(*d); std::swap(m, k); break;
            case 25: op = "move assignment"; { *c = std::move(*d); m = k; k.v.clear(); k.cap = SO ? (size_t)d->capacity() : 0; if (!d->empty()) { fail("the moved-from buffer is not empty", *d, k); } } break;
            case 26: op = "copy assignment"; if constexpr (COPY) { *d = *c; k = m; } break;
            case 27: op = "copy construction"; if constexpr (COPY) { C* e = new C(*c); delete d; d = e; k = m; } break;
            case 28: op = "construction from (capacity, range)"; if constexpr (COPY) { std::list<T> src; for (int y : xs) src.push_back(Z<T>::mk(y)); size_t nc = r.below(maxcap + 1); delete d; d = new C(mkcap<C>(nc, 0), src.begin(), src.end()); k.cap = nc; k.v = xs; k.front_cut(); } break;
            case 29: op = "construction from (n, item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); delete d; d = new C(mkcap<C>(xs.size(), 0), t); k.cap = xs.size(); k.v.assign(xs.size(), x); } break;
            case 30: op = "assign(n, item)"; if constexpr (COPY) { const T t = Z<T>::mk(x); c->assign(xs.size(), t); m.cap = xs.size(); m.v.assign(xs.size(), x); } break;
            case 31: op = "assign(range)"; if constexpr (COPY) { std::vector<int> ys = xs; std::list<T> src; for (int y : ys) src.push_back(Z<T>::mk(y)); if (r.chance(50)) { c->assign(src.begin(), src.end()); m.cap = ys.size(); } else { size_t nc = r.below(maxcap + 1); c->assign(mkcap<C>(nc, 0), src.begin(), src.end()); m.cap = nc; } m.v = ys; m.front_cut(); } break;
            case 32: op = "assign(input range)"; c->assign(Gen<T>(xs.data()), Gen<T>(xs.data() + xs.size())); m.cap = xs.size(); m.v = xs; break;
            case 33: op = "move construction"; { C* e = new C(std::move(*d)); if (!d->empty()) { M none; none.cap = (size_t)d->capacity(); fail("the moved-from buffer is not empty", *d, none); } delete d; d = e; } break;
            case 34: op = "insert(range)"; if constexpr (COPY) { std::list<T> src; for (int y : xs) src.push_back(Z<T>::mk(y)); if (r.chance(50)) { op = "rinsert(range)"; c->rinsert(at(p), src.begin(), src.end()); m.v.insert(m.v.begin() + (long)p, xs.begin(), xs.end()); m.back_cut(); } else { c->insert(at(p), src.begin(), src.end()); m.v.insert(m.v.begin() + (long)p, xs.begin(), xs.end()); m.front_cut(); } } break;
            default: op = "clear"; if (r.chance(30)) { c->clear(); m.v.clear(); } break;
            }
            ++op_hits[op];
            if (exp >= 0 && (got - c->begin()) != exp) fail("returned iterator", *c, m);
            if (case_failed() || !ok(*c, m) || !ok(*d, k)) break;
        }
        case_failed() = false; delete c; delete d;
    }
};
template <class T> void type(const char* nm, uint64_t seed, size_t n, int steps) {
    ++n_types; char buf[200];
    for (size_t h = 0; h < n; ++h) { std::snprintf(buf, sizeof buf, "zoo:%s history %llu of %d steps", nm, (unsigned long long)(seed * 100003 + h), steps); case_spec() = buf; op_text() = buf; if (h == 0) sample_case();
        if (h % 2) { Run<boost::circular_buffer_space_optimized<T> > r; r.go(seed * 100003 + h, steps, 3 + h % 20, nm); } else { Run<boost::circular_buffer<T> > r; r.go(seed * 100003 + h, steps, 3 + h % 20, nm); } }
}
int main(int argc, char** argv) {
    install(); for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    auto arg = [&](const char* n, unsigned long long d) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], n)) return std::strtoull(argv[i + 1], 0, 0); return d; };
    uint64_t seed = arg("-seed", 1); size_t n = arg("-n", 40); int steps = (int)arg("-steps", 80); dedup_keys() = true; max_viol() = 1000;
#define TY(T) type<T>(#T, seed, n, steps);
#if ZOO == 1
    TY(bool) TY(char) TY(signed char) TY(unsigned short) TY(wchar_t) TY(char32_t) TY(unsigned long long) TY(float) TY(long double) TY(Plain) TY(Scoped) TY(const int*) TY(const char*) TY(void*) TY(FP) TY(MP)
#elif ZOO == 2
    TY(Pod) TY(PIS) TY(AI5) TY(std::vector<int>) TY(std::list<int>) TY(std::shared_ptr<int>) TY(FUN) TY(std::any) TY(std::optional<int>) TY(VAR) TY(TUP) TY(CF)
#elif ZOO == 3
    TY(std::bitset<20>) TY(MAP) TY(std::wstring) TY(std::string) TY(CBI) TY(SOS) TY(std::string_view) TY(Empty) TY(NoDefault) TY(CopyOnly) TY(Final)
#else
    TY(NoNew) TY(Poly) TY(Greedy) TY(SelfPtr) TY(Wide) TY(RW) TY(MoveNoDefault) TY(std::unique_ptr<int>) TY(std::unique_ptr<int[]>)
#endif
    std::string hits; for (auto& h : op_hits) hits += (hits.empty() ? "" : ", ") + h.first + " x" + std::to_string(h.second);
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"zoo%d\",\"cases\":%llu,\"distinct\":%llu,\"types\":%llu,\"calls\":%llu,\"operations\":%zu}\n", ZOO, (unsigned long long)n_cases, (unsigned long long)n_cases, (unsigned long long)n_types, (unsigned long long)n_ops, op_hits.size());
    return wanted_count() ? 1 : 0;
}

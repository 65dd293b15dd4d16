// Iterator laws: arithmetic, order, conversions and standard algorithms over every layout,
// against index arithmetic and against the same algorithm on a plain vector.
#include "mon.hpp"
#include "ranges.hpp"
#include <algorithm>
#include <numeric>
#include <iterator>
#include <type_traits>
#include <set>
using namespace mon;

static uint64_t n_rel = 0, n_alg = 0, n_layout = 0, n_wrapped = 0;
static std::set<uint64_t> shapes;
struct P { int v; int w; };
inline bool operator==(const P& a, const P& b) { return a.v == b.v; }
inline bool operator<(const P& a, const P& b) { return a.v < b.v; }
namespace mon { template <> struct ET<P> { enum { tracked = 0, copyable = 1, movable = 1, nxc = 1, nxa = 1, scalar = 0 };
    static P mk(int x) { P p = {x, ~x}; return p; } static int get(const P& p) { return p.w == ~p.v ? p.v : DEAD; } static void set(P& p, int x) { p = mk(x); } static int norm(int x) { return x; } }; }

template <class C> typename std::enable_if<!std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }

// a container of capacity cap with n elements vals, physically starting at offset off
template <class C> struct Lay {
    C c;
    Lay(size_t cap, size_t off, const std::vector<int>& vals) : c(mkcap<C>(cap, cap)) {
        typedef typename C::value_type T;
        for (size_t k = 0; cap && k < off; ++k) { c.push_back(ET<T>::mk(0)); c.pop_front(); }
        for (size_t k = 0; k < vals.size(); ++k) c.push_back(ET<T>::mk(vals[k]));
        ++n_layout;
        if (c.array_two().second) ++n_wrapped;
    }
};
template <class C> void setcase(const char* what, size_t cap, size_t off, size_t n, const char* cname) {
    char b[200]; std::snprintf(b, sizeof b, "iter:%s:%zu,%zu,%zu", cname, cap, off, n); case_spec() = b; op_text() = b; sample_case();
    std::snprintf(b, sizeof b, "%s on %s capacity %zu offset %zu size %zu", what, cname, cap, off, n); op_text() = b; case_failed() = false; progress() = progress() + 1; call_ops() = 0;
    shapes.insert(cap * 1000003 + off * 1009 + n);
}
#define REQ(cond, key) do { ++n_rel; if (!(cond)) { viol("iter", key, "%s is false for positions %zu and %zu", #cond, i, j); return; } } while (0)

template <class C, class A, class B> void laws2(C& c, A ab, A ae, B bb, size_t i, size_t j, const std::vector<const typename C::value_type*>& at) {
    typedef std::ptrdiff_t D; const size_t n = at.size(); D di = (D)i, dj = (D)j;
    A a = ab + di; B b = bb + dj;
    REQ(a - b == di - dj, "difference"); REQ(b - a == dj - di, "difference");
    REQ((a == b) == (i == j), "equal"); REQ((a != b) == (i != j), "not-equal"); REQ((a < b) == (i < j), "less"); REQ((a > b) == (i > j), "greater"); REQ((a <= b) == (i <= j), "less-equal"); REQ((a >= b) == (i >= j), "greater-equal");
    REQ((b == a) == (i == j), "equal"); REQ((b < a) == (j < i), "less");
    A s = a; s += dj - di; REQ(s == ab + dj, "plus-assign"); REQ(s - ab == dj, "plus-assign"); s -= dj - di; REQ(s == a, "minus-assign");
    REQ(a + (dj - di) == ab + dj, "plus"); REQ((dj - di) + a == ab + dj, "plus-left"); REQ(a - (di - dj) == ab + dj, "minus");
    if (j < n) { REQ(&a[dj - di] == at[j], "subscript"); REQ(&*(a + (dj - di)) == at[j], "dereference"); }
    A t = a; for (size_t k = i; k < j; ++k) ++t; for (size_t k = i; k > j; --k) --t;
    REQ(t == ab + dj, "step"); REQ(t - ab == dj, "step");
    A nx = ab; std::advance(nx, dj); REQ(nx == ab + dj && std::distance(ab, nx) == dj, "std-advance");
    REQ(std::distance(a, ae) == (D)(n - i), "std-distance"); REQ(ae - a == (D)(n - i), "from-end"); REQ(ae - (D)(n - i) == a, "from-end");
    (void)c;
}
template <class C, class A> void laws1(C& c, A ab, A ae, size_t i, const std::vector<const typename C::value_type*>& at) {
    typedef typename C::value_type T; const size_t n = at.size(), j = i; typedef std::ptrdiff_t D;
    A a = ab + (D)i, copy(a), other; other = a;
    REQ(copy == a && other == a && copy - ab == (D)i, "copy");
    other = other; REQ(other == a, "self-assign");
    if (i < n) {
        REQ(&*a == at[i], "dereference"); REQ(a.operator->() == &*a, "arrow"); REQ(ET<T>::get(*a) == ET<T>::get(*at[i]), "value");
        A p = a; A q = p++; REQ(q == a && p == ab + (D)(i + 1), "post-increment"); A r = p--; REQ(r == ab + (D)(i + 1) && p == a, "post-decrement");
        if (i + 1 < n) { A nx = a; REQ(&*++nx == at[i + 1], "pre-increment"); }
        A& rr = ++p; REQ(&rr == &p, "increment-result"); A& r2 = --p; REQ(&r2 == &p && p == a, "decrement-result");
        A& r3 = (p += 0); REQ(&r3 == &p, "plus-assign-result"); A& r4 = (p -= 0); REQ(&r4 == &p, "minus-assign-result");
        REQ(a != ae && a < ae, "before-end");
    } else { REQ(a == ae && !(a < ae), "at-end"); if (n) { A p = a; REQ(&*--p == at[n - 1], "decrement-end"); } }
    REQ(a + 0 == a && a - 0 == a, "plus-zero");
    (void)c;
}
template <class C> void laws(const char* cname, size_t cap, size_t off, size_t n) {
    typedef typename C::value_type T; std::vector<int> v; for (size_t k = 0; k < n; ++k) v.push_back((int)k + 1);
    setcase<C>("iterator laws", cap, off, n, cname);
    Lay<C> L(cap, off, v); C& c = L.c; const C& k = c;
    std::vector<const T*> at; for (size_t q = 0; q < n; ++q) at.push_back(&k[q]);
    std::vector<const T*> rat(at.rbegin(), at.rend());
    typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::reverse_iterator RIt; typedef typename C::const_reverse_iterator CRIt;
    std::vector<size_t> pos; for (size_t q = 0; q <= n; ++q) if (n <= 12 || q < 4 || q + 4 > n || q % (n / 7) == 0 || q + off == cap || q + off + 1 == cap || q + off == cap + 1) pos.push_back(q);
    for (size_t i : pos) {
        if (case_failed()) return;
        laws1<C, It>(c, c.begin(), c.end(), i, at); laws1<C, CIt>(c, k.begin(), k.end(), i, at);
        laws1<C, RIt>(c, c.rbegin(), c.rend(), i, rat); laws1<C, CRIt>(c, k.rbegin(), k.rend(), i, rat);
        size_t j = i; CIt conv = c.begin() + (long)i; REQ(conv == k.begin() + (long)i && conv - k.begin() == (long)i, "conversion"); CIt as; as = c.begin() + (long)i; REQ(as == conv, "converting-assignment");
        RIt rv = c.rbegin() + (long)i; REQ(rv.base() == c.begin() + (long)(n - i), "reverse-base"); REQ(RIt(c.begin() + (long)(n - i)) == rv, "reverse-of");
        for (size_t j2 : pos) { if (case_failed()) return;
            laws2<C>(c, c.begin(), c.end(), c.begin(), i, j2, at); laws2<C>(c, k.begin(), k.end(), k.begin(), i, j2, at); laws2<C>(c, k.begin(), k.end(), c.begin(), i, j2, at); laws2<C>(c, c.begin(), c.end(), k.begin(), i, j2, at);
            laws2<C>(c, c.rbegin(), c.rend(), c.rbegin(), i, j2, rat); laws2<C>(c, k.rbegin(), k.rend(), k.rbegin(), i, j2, rat); }
    }
}
// ---------------------------------------------------------------- algorithms: same call on the container and on a vector
template <class C> struct Alg {
    typedef typename C::value_type T; typedef typename C::iterator It;
    const char* cname; size_t cap, off; std::vector<int> v; Rng r; const char* what;
    bool same(const C& c, const std::vector<int>& ref, const char* name) {
        ++n_alg; bool ok = c.size() == ref.size(); for (size_t k = 0; ok && k < ref.size(); ++k) ok = ET<T>::get(c[k]) == ref[k];
        if (!ok) viol("iter", name, "%s over the iterators differs from the same algorithm on a vector", name);
        return ok;
    }
    static bool lt(const T& a, const T& b) { return ET<T>::get(a) < ET<T>::get(b); }
    static bool eq(const T& a, const T& b) { return ET<T>::get(a) == ET<T>::get(b); }
    template <class FC, class FV> void both(const char* name, FC fc, FV fv) {
        if (case_failed()) return;
        setcase<C>(name, cap, off, v.size(), cname); what = name;
        Lay<C> L(cap, off, v); std::vector<int> ref(v);
        long a = fc(L.c), b = fv(ref);
        if (a != b) { viol("iter", name, "%s returned position or value %ld over the container iterators and %ld on a vector", name, a, b); return; }
        same(L.c, ref, name);
    }
    void run() {
        size_t n = v.size(); std::vector<int> sorted(v); std::sort(sorted.begin(), sorted.end());
        size_t m = n ? r.below(n + 1) : 0; int x = n ? v[r.below(n)] : 1; std::vector<int> srt(sorted);
        typedef std::vector<int> V;
        both("sort", [](C& c) { std::sort(c.begin(), c.end(), lt); return 0L; }, [](V& w) { std::sort(w.begin(), w.end()); return 0L; });
        both("stable_sort", [](C& c) { std::stable_sort(c.begin(), c.end(), lt); return 0L; }, [](V& w) { std::stable_sort(w.begin(), w.end()); return 0L; });
        both("sort-reverse", [](C& c) { std::sort(c.rbegin(), c.rend(), lt); return 0L; }, [](V& w) { std::sort(w.rbegin(), w.rend()); return 0L; });
        both("reverse", [](C& c) { std::reverse(c.begin(), c.end()); return 0L; }, [](V& w) { std::reverse(w.begin(), w.end()); return 0L; });
        both("std-rotate", [m](C& c) { return (long)(std::rotate(c.begin(), c.begin() + (long)m, c.end()) - c.begin()); }, [m](V& w) { return (long)(std::rotate(w.begin(), w.begin() + (long)m, w.end()) - w.begin()); });
        both("stable_partition", [x](C& c) { return (long)(std::stable_partition(c.begin(), c.end(), [x](const T& t) { return ET<T>::get(t) < x; }) - c.begin()); }, [x](V& w) { return (long)(std::stable_partition(w.begin(), w.end(), [x](int t) { return t < x; }) - w.begin()); });
        both("unique", [](C& c) { It q = std::unique(c.begin(), c.end(), eq); long k = q - c.begin(); c.erase(q, c.end()); return k; }, [](V& w) { long k = std::unique(w.begin(), w.end()) - w.begin(); w.resize((size_t)k); return k; });
        both("remove", [x](C& c) { It q = std::remove_if(c.begin(), c.end(), [x](const T& t) { return ET<T>::get(t) == x; }); long k = q - c.begin(); c.erase(q, c.end()); return k; }, [x](V& w) { long k = std::remove(w.begin(), w.end(), x) - w.begin(); w.resize((size_t)k); return k; });
        both("find", [x](C& c) { return (long)(std::find_if(c.begin(), c.end(), [x](const T& t) { return ET<T>::get(t) == x; }) - c.begin()); }, [x](V& w) { return (long)(std::find(w.begin(), w.end(), x) - w.begin()); });
        both("count", [x](C& c) { return (long)std::count_if(c.begin(), c.end(), [x](const T& t) { return ET<T>::get(t) == x; }); }, [x](V& w) { return (long)std::count(w.begin(), w.end(), x); });
        both("max_element", [](C& c) { return (long)(std::max_element(c.begin(), c.end(), lt) - c.begin()); }, [](V& w) { return (long)(std::max_element(w.begin(), w.end()) - w.begin()); });
        both("next_permutation", [](C& c) { return (long)std::next_permutation(c.begin(), c.end(), lt); }, [](V& w) { return (long)std::next_permutation(w.begin(), w.end()); });
        both("heap", [](C& c) { std::make_heap(c.begin(), c.end(), lt); std::sort_heap(c.begin(), c.end(), lt); return 0L; }, [](V& w) { std::make_heap(w.begin(), w.end()); std::sort_heap(w.begin(), w.end()); return 0L; });
        both("copy-inside", [m](C& c) { std::copy(c.begin() + (long)m, c.end(), c.begin()); return 0L; }, [m](V& w) { std::copy(w.begin() + (long)m, w.end(), w.begin()); return 0L; });
        both("copy_backward", [m](C& c) { std::copy_backward(c.begin(), c.begin() + (long)(c.size() - m), c.end()); return 0L; }, [m](V& w) { std::copy_backward(w.begin(), w.begin() + (long)(w.size() - m), w.end()); return 0L; });
        both("swap_ranges", [m](C& c) { size_t h = c.size() / 2; std::swap_ranges(c.begin(), c.begin() + (long)h, c.end() - (long)h); (void)m; return 0L; }, [m](V& w) { size_t h = w.size() / 2; std::swap_ranges(w.begin(), w.begin() + (long)h, w.end() - (long)h); return 0L; });
        both("nth_element", [m](C& c) { if (m < c.size()) { std::nth_element(c.begin(), c.begin() + (long)m, c.end(), lt); long q = ET<T>::get(c[m]); std::sort(c.begin(), c.end(), lt); return q; } std::sort(c.begin(), c.end(), lt); return -7L; }, [m](V& w) { std::sort(w.begin(), w.end()); return m < w.size() ? (long)w[m] : -7L; });
        both("accumulate", [](C& c) { unsigned long s = 0; for (auto i = c.begin(); i != c.end(); ++i) s = s * 3 + ET<T>::get(*i); return (long)s; }, [](V& w) { unsigned long s = 0; for (int q : w) s = s * 3 + q; return (long)s; });
        both("range-for", [](C& c) { unsigned long s = 0; for (const T& t : c) s = s * 5 + ET<T>::get(t); return (long)s; }, [](V& w) { unsigned long s = 0; for (int q : w) s = s * 5 + q; return (long)s; });
        both("reverse-iteration", [](C& c) { unsigned long s = 0; for (auto i = c.rbegin(); i != c.rend(); ++i) s = s * 7 + ET<T>::get(*i); return (long)s; }, [](V& w) { unsigned long s = 0; for (auto i = w.rbegin(); i != w.rend(); ++i) s = s * 7 + *i; return (long)s; });
        both("inplace_merge", [m](C& c) { std::sort(c.begin(), c.begin() + (long)m, lt); std::sort(c.begin() + (long)m, c.end(), lt); std::inplace_merge(c.begin(), c.begin() + (long)m, c.end(), lt); return 0L; }, [](V& w) { std::sort(w.begin(), w.end()); return 0L; });
        both("generate", [](C& c) { int k = 3; std::generate(c.begin(), c.end(), [&k] { k += 2; return ET<T>::mk(k); }); return 0L; }, [](V& w) { int k = 3; std::generate(w.begin(), w.end(), [&k] { k += 2; return k; }); return 0L; });
        v = srt;
        both("lower_bound", [x](C& c) { T t = ET<T>::mk(x); return (long)(std::lower_bound(c.begin(), c.end(), t, lt) - c.begin()); }, [x](V& w) { return (long)(std::lower_bound(w.begin(), w.end(), x) - w.begin()); });
        both("upper_bound", [x](C& c) { T t = ET<T>::mk(x); return (long)(std::upper_bound(c.begin(), c.end(), t, lt) - c.begin()); }, [x](V& w) { return (long)(std::upper_bound(w.begin(), w.end(), x) - w.begin()); });
        // copying out and between two containers with different layouts
        if (!case_failed()) { setcase<C>("copy between containers", cap, off, n, cname); Lay<C> A(cap, off, v), B(cap + 1, cap - (off ? off - 1 : 0), V(n, 0)); std::copy(A.c.begin(), A.c.end(), B.c.begin()); same(B.c, v, "copy-between"); B.c.clear(); std::copy(A.c.rbegin(), A.c.rend(), std::back_inserter(B.c)); V rv(v.rbegin(), v.rend()); same(B.c, rv, "back_inserter"); }
    }
};
template <class C> void drive(const char* cname, size_t maxcap, const std::string& part, uint64_t seed, unsigned rounds) {
    typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::value_type T;
    static_assert(std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value, "category");
    static_assert(std::is_same<typename std::iterator_traits<It>::value_type, T>::value && std::is_same<typename std::iterator_traits<It>::reference, T&>::value, "iterator types");
    static_assert(std::is_same<typename std::iterator_traits<CIt>::reference, const T&>::value, "const iterator types");
    static_assert(std::is_convertible<It, CIt>::value && !std::is_convertible<CIt, It>::value, "constness");
    if (part == "laws" || part == "all") {
        for (size_t cap = 0; cap <= maxcap; ++cap) for (size_t off = 0; off < std::max<size_t>(cap, 1); ++off) for (size_t n = 0; n <= cap; ++n) laws<C>(cname, cap, off, n);
        size_t big[] = {16, 17, 64, 100, 257}; Rng r(seed);
        for (size_t cap : big) for (int q = 0; q < 8; ++q) { size_t n = q == 0 ? cap : q == 1 ? cap - 1 : r.below(cap + 1); laws<C>(cname, cap, r.below(cap), n); }
    }
    if (part == "alg" || part == "all") {
        Rng r(seed * 31 + 7);
        for (unsigned q = 0; q < rounds; ++q) {
            size_t cap = q % 3 == 0 ? r.below(6) : q % 3 == 1 ? r.below(40) : 30 + r.below(300);
            Alg<C> a = {cname, cap, cap ? (size_t)r.below(cap) : 0, std::vector<int>(), Rng(r.next()), ""};
            size_t n = r.chance(30) ? cap : r.below(cap + 1); int range = r.chance(50) ? 5 : 1000; for (size_t k = 0; k < n; ++k) a.v.push_back(1 + (int)r.below((uint64_t)range));
            a.run(); case_failed() = false;
        }
    }
}
int main(int argc, char** argv) {
    install();
    auto arg = [&](const char* name, unsigned long long def) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return std::strtoull(argv[i + 1], 0, 0); return def; };
    auto sarg = [&](const char* name, const char* def) -> std::string { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return argv[i + 1]; return def; };
    want() = sarg("-want", ""); std::string part = sarg("-part", "all"); size_t cap = arg("-cap", 6); uint64_t seed = arg("-seed", 1); unsigned rounds = (unsigned)arg("-rounds", 60); std::string cont = sarg("-cont", "all");
    if (cont == "cb" || cont == "all") { drive<boost::circular_buffer<int> >("circular_buffer<int>", cap, part, seed, rounds); drive<boost::circular_buffer<P> >("circular_buffer<struct>", cap, part, seed + 1, rounds); drive<boost::circular_buffer<ElemN> >("circular_buffer<tracked>", cap, part, seed + 2, rounds); drive<boost::circular_buffer<std::string> >("circular_buffer<string>", cap > 4 ? 4 : cap, part, seed + 3, rounds / 2); }
    if (cont == "so" || cont == "all") { drive<boost::circular_buffer_space_optimized<int> >("circular_buffer_space_optimized<int>", cap, part, seed + 4, rounds); drive<boost::circular_buffer_space_optimized<P> >("circular_buffer_space_optimized<struct>", cap, part, seed + 5, rounds); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"iter\",\"cases\":%llu,\"relations\":%llu,\"algorithms\":%llu,\"distinct\":%zu,\"wrapped\":%llu}\n", (unsigned long long)n_layout, (unsigned long long)n_rel, (unsigned long long)n_alg, shapes.size(), (unsigned long long)n_wrapped);
    return wanted_count() ? 1 : 0;
}

// Comparison operators: every pair of small sequences in every layout, long sequences differing in one place,
// element types that only offer == and <, and a partially ordered element type, against the same
// comparison of plain vectors.
#include "mon.hpp"
#include "ranges.hpp"
#include <set>
#include <limits>
#include <algorithm>
using namespace mon;
static uint64_t n_cmp = 0, n_eq = 0, n_lt = 0, n_wrapped = 0; static std::set<uint64_t> shapes;

struct Min { int v; explicit Min(int x) : v(x) {} };                       // only == and <
inline bool operator==(const Min& a, const Min& b) { return a.v == b.v; }
inline bool operator<(const Min& a, const Min& b) { return a.v < b.v; }
struct Mod { int v; explicit Mod(int x) : v(x) {} };                       // == is not the equivalence of <
inline bool operator==(const Mod& a, const Mod& b) { return a.v % 3 == b.v % 3 && a.v != 7; }
inline bool operator<(const Mod& a, const Mod& b) { return a.v / 2 < b.v / 2; }
template <class T> T mkval(int x) { return T(x); }
template <> double mkval<double>(int x) { return x == 3 ? std::numeric_limits<double>::quiet_NaN() : x == 0 ? -0.0 : x == 4 ? 0.0 : x; }
template <> std::string mkval<std::string>(int x) { return ET<std::string>::mk(x); }

template <class C> typename std::enable_if<!std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<std::is_constructible<typename C::capacity_type, size_t, size_t>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }
template <class C> C* mk(size_t cap, size_t off, const std::vector<int>& v) {
    typedef typename C::value_type T;
    C* c = new C(mkcap<C>(cap, cap)); for (size_t k = 0; cap && k < off; ++k) { c->push_back(mkval<T>(1)); c->pop_front(); }
    for (int x : v) c->push_back(mkval<T>(x));
    if (c->array_two().second) ++n_wrapped;
    return c;
}
static std::string vs(const std::vector<int>& v) { std::string s; for (int x : v) { s += std::to_string(x); s += '.'; } return s; }
template <class C> void compare(const char* name, const C& a, const C& b, const std::vector<int>& x, const std::vector<int>& y, size_t ca, size_t oa, size_t cb, size_t ob) {
    typedef typename C::value_type T; std::vector<T> p, q; for (int i : x) p.push_back(mkval<T>(i)); for (int i : y) q.push_back(mkval<T>(i));
    char buf[300]; std::string xs = vs(x), ys = vs(y); std::snprintf(buf, sizeof buf, "cmp:%s:%zu,%zu,%s:%zu,%zu,%s", name, ca, oa, xs.size() > 90 ? "long" : xs.c_str(), cb, ob, ys.size() > 90 ? "long" : ys.c_str()); case_spec() = buf; op_text() = buf; case_failed() = false; progress() = progress() + 1; call_ops() = 0;
    op_text() = case_spec(); sample_case(); shapes.insert(std::hash<std::string>()(case_spec()));
    bool e = p.size() == q.size() && std::equal(p.begin(), p.end(), q.begin()), l = std::lexicographical_compare(p.begin(), p.end(), q.begin(), q.end()), g = std::lexicographical_compare(q.begin(), q.end(), p.begin(), p.end());
    n_cmp += 6; n_eq += e; n_lt += l;
    struct { bool got, want; const char* n; } t[] = {{a == b, e, "=="}, {a != b, !e, "!="}, {a < b, l, "<"}, {a > b, g, ">"}, {a <= b, !g, "<="}, {a >= b, !l, ">="}};
    for (auto& r : t) if (r.got != r.want) { viol("cmp", r.n, "operator %s is %d, the same comparison of plain sequences is %d", r.n, (int)r.got, (int)r.want); break; }
}
template <class C> void drive(const char* name, int alphabet, size_t maxlen, uint64_t seed, unsigned rounds) {
    std::vector<std::vector<int> > seqs(1); for (size_t k = 0; k < seqs.size(); ++k) if (seqs[k].size() < maxlen) for (int x = 0; x < alphabet; ++x) { std::vector<int> v(seqs[k]); v.push_back(x); seqs.push_back(v); }
    struct Lay { size_t cap, off; C* c; const std::vector<int>* v; }; std::vector<Lay> all;
    for (auto& v : seqs) { size_t n = v.size(); size_t caps[] = {n, n + 1, n + 3}; for (size_t cap : caps) for (size_t off = 0; off < std::max<size_t>(cap, 1); off += (cap > 3 ? 2 : 1)) { if (cap == n + 3 && off < 2) continue; Lay l = {cap, off, mk<C>(cap, off, v), &v}; all.push_back(l); } }
    Rng r(seed);
    size_t total = all.size() * all.size(); unsigned every = (unsigned)(total / (400ull * rounds + 1)) + 1;
    for (auto& a : all) for (auto& b : all) { if (a.v != b.v && every > 1 && r.below(every)) continue; compare(name, *a.c, *b.c, *a.v, *b.v, a.cap, a.off, b.cap, b.off); }
    for (auto& a : all) delete a.c;
    for (unsigned q = 0; q < rounds; ++q) {       // long sequences, one difference or a prefix
        size_t n = 1 + r.below(r.chance(50) ? 12 : 300); std::vector<int> x; for (size_t k = 0; k < n; ++k) x.push_back((int)r.below((uint64_t)alphabet)); std::vector<int> y(x);
        unsigned how = (unsigned)r.below(4); size_t at = r.chance(30) ? n - 1 : r.below(n); if (how == 0) y[at] = (int)r.below((uint64_t)alphabet); else if (how == 1) y.resize(at); else if (how == 2) y.push_back((int)r.below((uint64_t)alphabet));
        size_t ca = n + r.below(3), cb = y.size() + r.below(3), oa = ca ? r.below(ca) : 0, ob = cb ? r.below(cb) : 0; if (how == 0 && r.chance(40)) { cb = ca; ob = (oa + 1) % ca; }
        C* a = mk<C>(ca, oa, x); C* b = mk<C>(cb, ob, y); compare(name, *a, *b, x, y, ca, oa, cb, ob); compare(name, *b, *a, y, x, cb, ob, ca, oa); compare(name, *a, *a, x, x, ca, oa, ca, oa); delete a; delete b;
    }
}
int main(int argc, char** argv) {
    install();
    auto arg = [&](const char* name, unsigned long long def) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return std::strtoull(argv[i + 1], 0, 0); return def; };
    for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    uint64_t s = arg("-seed", 1); unsigned rounds = (unsigned)arg("-rounds", 60);
    drive<boost::circular_buffer<int> >("cb<int>", 3, 4, s, rounds); drive<boost::circular_buffer<unsigned char> >("cb<uchar>", 2, 5, s, rounds); drive<boost::circular_buffer<Min> >("cb<==,< only>", 3, 4, s, rounds); drive<boost::circular_buffer<Mod> >("cb<odd ==>", 8, 2, s, rounds);
    drive<boost::circular_buffer<double> >("cb<double,NaN>", 5, 3, s, rounds); drive<boost::circular_buffer<ElemN> >("cb<tracked>", 2, 4, s, rounds); drive<boost::circular_buffer<std::string> >("cb<string>", 2, 3, s, rounds);
    drive<boost::circular_buffer_space_optimized<int> >("so<int>", 3, 4, s, rounds); drive<boost::circular_buffer_space_optimized<Min> >("so<==,< only>", 3, 3, s, rounds); drive<boost::circular_buffer_space_optimized<Mod> >("so<odd ==>", 8, 2, s, rounds); drive<boost::circular_buffer_space_optimized<double> >("so<double,NaN>", 5, 3, s, rounds); drive<boost::circular_buffer_space_optimized<ElemN> >("so<tracked>", 2, 4, s, rounds);
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"cmp\",\"cases\":%llu,\"distinct\":%zu,\"equal\":%llu,\"less\":%llu,\"wrapped\":%llu}\n", (unsigned long long)n_cmp, shapes.size(), (unsigned long long)n_eq, (unsigned long long)n_lt, (unsigned long long)n_wrapped);
    return wanted_count() ? 1 : 0;
}

// Operations specified as no-throw: noexcept as seen by generic code, and executed with every element
// operation and every allocation armed to throw.
#include "mon.hpp"
#include "ranges.hpp"
#include <type_traits>
using namespace mon;
static uint64_t n_exec = 0, n_static = 0, n_realloc = 0; static std::vector<std::string> seen;
template <class C> struct is_so { enum { value = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> typename std::enable_if<!is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }
static void ctx(const std::string& s) { case_spec() = s; op_text() = s; sample_case(); case_failed() = false; progress() = progress() + 1; call_ops() = 0; }

#define NX(expr) do { ++n_static; ctx(std::string("noexcept:") + name + ":" #expr); if (!noexcept(expr)) viol("nothrow", "noexcept", "noexcept(" #expr ") is false for %s, the operation is specified as no-throw", name); } while (0)
template <class C> void statics(const char* name) {
    C* p = 0; const C* k = 0; (void)p; (void)k; using std::swap;
    NX(p->size()); NX(p->max_size()); NX(p->empty()); NX(p->full()); NX(p->reserve()); NX(k->capacity()); NX(k->get_allocator()); NX(p->begin()); NX(p->end()); NX(k->begin()); NX(k->end());
    NX(p->rbegin()); NX(p->rend()); NX(k->rbegin()); NX(k->rend()); NX(k->is_linearized()); NX(p->swap(*p)); NX(swap(*p, *p)); NX(C(std::move(*p))); NX(*p = std::move(*p)); NX(p->~C());
    ctx(std::string("noexcept:") + name + ":traits");
    n_static += 2; if (!std::is_nothrow_move_constructible<C>::value) viol("nothrow", "noexcept", "%s is not nothrow move constructible", name); if (!std::is_nothrow_move_assignable<C>::value) viol("nothrow", "noexcept", "%s is not nothrow move assignable", name);
}
template <class C> void plain_only(const char* name) { C* p = 0; (void)p; NX(p->clear()); NX(p->cbegin()); NX(p->cend()); }

template <class C> struct Box { C* c; std::vector<int> v; Box() : c(0) {} ~Box() { delete c; } };
template <class C> void fill(Box<C>& b, size_t cap, size_t off, size_t n) {
    typedef typename C::value_type T; typedef typename C::allocator_type A; static int id = 1;
    b.c = new C(mkcap<C>(cap, cap), A(id++)); for (size_t k = 0; cap && k < off; ++k) { b.c->push_back(T(0)); b.c->pop_front(); }
    for (size_t k = 0; k < n; ++k) { b.c->push_back(T((int)k + 1)); b.v.push_back((int)k + 1); }
}
template <class C, class F> void run(const char* name, const char* op, C* x, F f) {
    (void)x; ++n_exec; op_text() = op; arm(0, F_ELEM | F_ALLOC | F_SRC); int thrown = 0; call_ops() = 0;
    try { f(); } catch (const Fault&) { thrown = 1; } catch (...) { thrown = 2; }
    long pts = fs().points; disarm();
    if (thrown) viol("nothrow", op, "%s on %s threw (%s)", op, name, thrown == 1 ? "an element operation or allocation was used" : "another exception");
    else if (pts) viol("nothrow", op, "%s on %s performed %ld operations that may throw and hid the exception", op, name, pts);
}
template <class C> void same(const char* name, const char* op, const C& c, const std::vector<int>& v) {
    bool ok = c.size() == v.size(); for (size_t k = 0; ok && k < v.size(); ++k) ok = c[k].get() == v[k];
    if (!ok) viol("nothrow", op, "after %s on %s the content is not the specified one", op, name);
}
template <class C> void common(const char* name, size_t cap, size_t off, size_t n) {
    typedef typename C::value_type T; char buf[200]; std::snprintf(buf, sizeof buf, "nothrow:%s:%zu,%zu,%zu", name, cap, off, n);
    #define ON(op, ...) do { ctx(buf); { Box<C> b, o; fill(b, cap, off, n); fill(o, n + 2, 1, n / 2 + 1); C& x = *b.c; C& y = *o.c; const C& kx = x; (void)y; (void)kx; run(name, op, b.c, [&] { __VA_ARGS__; }); same(name, op, x, b.v); same(name, op, y, o.v); } flush_quarantine(); if (case_failed()) reset_world(); } while (0)
    volatile size_t sink = 0; (void)sink;
    ON("observers", sink = kx.size() + kx.max_size() + kx.empty() + kx.full() + kx.reserve() + (size_t)kx.capacity() + kx.is_linearized() + kx.get_allocator().id);
    ON("element access", if (n) { sink = (size_t)&kx[n / 2] + (size_t)&kx.at(n - 1) + (size_t)&kx.front() + (size_t)&kx.back() + (size_t)&x[0] + (size_t)&x.front() + (size_t)&x.back(); });
    ON("array ranges", sink = kx.array_one().second + kx.array_two().second + x.array_one().second + x.array_two().second);
    ON("iteration", for (typename C::const_iterator i = kx.begin(); i != kx.end(); ++i) sink = (size_t)&*i; for (typename C::reverse_iterator i = x.rbegin(); i != x.rend(); ++i) sink = (size_t)&*i; typename C::const_iterator q = x.begin(); q += (long)n; q -= (long)n / 2; sink = (size_t)(q - kx.begin()) + (q < kx.end()));
    ON("swap", { x.swap(y); std::swap(b.v, o.v); }); ON("free swap", { using std::swap; swap(x, y); std::swap(b.v, o.v); }); ON("self swap", x.swap(x));
    ON("move construction", { C z(std::move(x)); z.swap(x); });
    ON("move assignment", { y = std::move(x); o.v = b.v; b.v.clear(); });
    ON("self assignment", { const C& z = x; x = z; });
    ON("default construction", { C z; sink = z.size(); });
    ON("set_capacity to the present capacity", { x.set_capacity(kx.capacity()); x.rset_capacity(kx.capacity()); });
    ON("linearize when linear", if (x.is_linearized()) x.linearize());
    ON("rotate by nothing", if (n) x.rotate(x.begin()));
    ON("erase of nothing", { x.erase(x.begin() + (long)n / 2, x.begin() + (long)n / 2); x.rerase(x.end(), x.end()); });
    ON("insert of nothing", { x.insert(x.begin() + (long)n / 2, x.begin(), x.begin()); x.rinsert(x.begin() + (long)n / 2, x.begin(), x.begin()); });
    (void)sizeof(T);
}
template <class C> void fixed(const char* name, size_t cap, size_t off, size_t n) {
    typedef typename C::value_type T; char buf[200]; std::snprintf(buf, sizeof buf, "nothrow:%s:%zu,%zu,%zu", name, cap, off, n); (void)sizeof(T);
    ON("pop_back", if (n) { x.pop_back(); b.v.pop_back(); }); ON("pop_front", if (n) { x.pop_front(); b.v.erase(b.v.begin()); }); ON("clear", { x.clear(); b.v.clear(); });
    ON("rotate when full", if (n && x.full()) { x.rotate(x.begin() + (long)n / 2); std::rotate(b.v.begin(), b.v.begin() + (long)n / 2, b.v.end()); });
    ON("erase at the end", if (n) { x.erase(x.end() - 1); b.v.pop_back(); }); ON("rerase at the beginning", if (n) { x.rerase(x.begin()); b.v.erase(b.v.begin()); });
    ON("resize down", if (n) { b.v.pop_back(); disarm(); { T z(0); arm(0, F_ELEM | F_ALLOC); x.resize(n - 1, z); } });
    ON("push into no capacity", if (!cap) { disarm(); { T z(0); arm(0, F_ELEM | F_ALLOC); x.push_back(z); x.push_front(z); } });
    ON("insert that cannot fit", if (n == cap) { disarm(); { T z(0); arm(0, F_ELEM | F_ALLOC); x.insert(x.begin(), z); x.rinsert(x.end(), z); x.insert(x.begin(), 2, z); x.rinsert(x.end(), 2, z); } });
}
// generic code that relies on it: a vector of buffers relocates them by moving
template <class C> void in_vector(const char* name) {
    typedef typename C::value_type T; ctx(std::string("nothrow:vector:") + name); Count b = cnt();
    { std::vector<C> v; for (int k = 0; k < 9; ++k) { C c(mkcap<C>(4, 0)); c.push_back(T(k)); c.push_back(T(k + 10)); v.push_back(std::move(c)); ++n_realloc; }
      Count mid = cnt(); v.reserve(100); Count d = cnt() - mid; if (d.cctor + d.mctor + d.cassign + d.massign + d.alloc) viol("nothrow", "vector-relocation", "relocating a vector of %s performed %llu element operations and %llu allocations", name, (unsigned long long)work(d), (unsigned long long)d.alloc);
      for (int k = 0; k < 9; ++k) if (v[(size_t)k].size() != 2 || v[(size_t)k][0].get() != k || v[(size_t)k][1].get() != k + 10) { viol("nothrow", "vector-relocation", "contents lost while relocating a vector of %s", name); break; } }
    (void)b; flush_quarantine(); if (case_failed()) reset_world();
}
int main(int argc, char** argv) {
    install(); for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    typedef boost::circular_buffer<ElemT, MonAlloc<ElemT> > BT; typedef boost::circular_buffer<ElemC, MonAlloc<ElemC> > BC; typedef boost::circular_buffer_space_optimized<ElemT, MonAlloc<ElemT> > ST; typedef boost::circular_buffer_space_optimized<ElemC, MonAlloc<ElemC> > SC;
    statics<BT>("cb<T>"); statics<boost::circular_buffer<int> >("cb<int>"); statics<boost::circular_buffer<std::string> >("cb<string>"); statics<ST>("so<T>"); statics<boost::circular_buffer_space_optimized<int> >("so<int>"); plain_only<BT>("cb<T>"); plain_only<boost::circular_buffer<int> >("cb<int>");
    for (size_t cap = 0; cap <= 6; ++cap) for (size_t n = 0; n <= cap; ++n) for (size_t off = 0; off < (cap ? cap : 1); ++off) {
        common<BT>("cb<throwing move>", cap, off, n); common<BC>("cb<copy only>", cap, off, n); common<ST>("so<throwing move>", cap, off, n); common<SC>("so<copy only>", cap, off, n); fixed<BT>("cb<throwing move>", cap, off, n); fixed<BC>("cb<copy only>", cap, off, n); }
    in_vector<BT>("cb<throwing move>"); in_vector<BC>("cb<copy only>"); in_vector<ST>("so<throwing move>"); in_vector<SC>("so<copy only>");
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"nothrow\",\"cases\":%llu,\"distinct\":%llu,\"noexcept_queries\":%llu,\"vector_relocations\":%llu}\n", (unsigned long long)(n_exec + n_static), (unsigned long long)(n_exec + n_static), (unsigned long long)n_static, (unsigned long long)n_realloc);
    return wanted_count() ? 1 : 0;
}

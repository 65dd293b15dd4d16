// Arguments that refer into the container itself: the value an argument had at the call is what the operation
// uses.  Every operation x position x referred element x state; failures are keyed by container, operation
// and relation, so that recorded findings name exactly what fails.
#include "mon.hpp"
#include "ranges.hpp"
#include <algorithm>
#include <map>
using namespace mon;
static uint64_t n_cases = 0, n_lvalue = 0; static std::map<std::string, uint64_t> classes;
template <class C> struct is_so { enum { value = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> typename std::enable_if<!is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }
static const char* sname = "";
template <class C> struct D {
    typedef typename C::value_type T; typedef typename C::allocator_type A; enum { SO = is_so<C>::value };
    static C* mk(size_t cap, size_t mn, size_t off, size_t n, std::vector<int>& v) {
        C* c = new C(mkcap<C>(cap, mn), A(1)); for (size_t k = 0; cap && k < off; ++k) { c->push_back(ET<T>::mk(0)); c->pop_front(); } v.clear(); for (size_t k = 0; k < n; ++k) { c->push_back(ET<T>::mk((int)k + 1)); v.push_back((int)k + 1); } return c; }
    // what: relation of the referred element to the operation, decided before the call
    template <class F> static void one(size_t cap, size_t mn, size_t off, size_t n, const char* op, size_t k, const std::string& rel, const std::vector<int>& want, size_t wcap, F f) {
        std::vector<int> v; char buf[200]; std::snprintf(buf, sizeof buf, "selfref:%s:%zu,%zu,%zu,%zu %s item=element %zu (%s)", sname, cap, mn, off, n, op, k, rel.c_str()); case_spec() = buf; op_text() = buf; sample_case(); case_failed() = false; progress() = progress() + 1; call_ops() = 0; ++n_cases;
        std::string key = std::string(SO ? "so:" : "cb:") + op + ":" + rel; ++classes[key];
        int saved_v = viol_count(), saved_w = wanted_count(); std::string saved_want = want_tags(); (void)saved_v;
        // the element monitor's own reports of this case are folded into one report with the precise key
        bool was = mute(); mute() = true; bool thrown = false; std::string why;
        C* c = mk(cap, mn, off, n, v); uint64_t v0 = muted(); const bool whole = !std::strncmp(op, "self ", 5) || !std::strncmp(op, "set_capacity(own", 16);
        std::vector<const T*> at0; for (size_t q = 0; q < c->size(); ++q) at0.push_back(&(*c)[q]); Count k0 = cnt();
        try { f(*c); } catch (...) { thrown = true; }
        if (whole && !thrown) {
            Count dd = cnt() - k0; bool same = c->size() == at0.size(); for (size_t q = 0; same && q < at0.size(); ++q) same = &(*c)[q] == at0[q];
            if (!same) why = "the elements are at other addresses"; else if (!SO && (work(dd) || dd.alloc || dd.dealloc)) why = "elements or memory were replaced";
        }
        if (why.empty() && muted() != v0) why = "an element or block was used after its lifetime";
        if (why.empty() && thrown) why = "threw";
        if (why.empty()) { bool ok = c->size() == want.size() && (size_t)c->capacity() == wcap; std::string got; for (size_t q = 0; q < c->size(); ++q) { int g = ET<T>::get((*c)[q]); got += std::to_string(g) + " "; if (q >= want.size() || g != want[q]) ok = false; } if (!ok) { why = "contents " + got + "specified "; for (int w : want) why += std::to_string(w) + " "; } }
        if (why.empty()) { delete c; flush_quarantine(); if (muted() != v0) why = "lifetime or memory damaged"; if (live().size() || blocks().size()) why = "leak"; }
        mute() = was; (void)saved_w; (void)saved_want;
        if (!why.empty()) { case_failed() = false; viol("selfref", key.c_str(), "%s", why.c_str()); }
        reset_world(); case_failed() = false;
    }
    static std::vector<int> ins(std::vector<int> v, size_t cap, size_t p, size_t n, int x, bool r) {       // model of insert/rinsert of n copies
        size_t res = cap - v.size(); if (!r) { size_t keep = std::min(n, p + res), over = std::min(p, n > res ? n - res : 0); v.insert(v.begin() + (long)p, keep, x); v.erase(v.begin(), v.begin() + (long)over); }
        else { size_t keep = std::min(n, v.size() - p + res), over = std::min(v.size() - p, n > res ? n - res : 0); v.insert(v.begin() + (long)p, keep, x); v.resize(v.size() - over); } return v; }
    static void all(size_t cap, size_t mn, size_t off, size_t n) {
        std::vector<int> v; for (size_t k = 0; k < n; ++k) v.push_back((int)k + 1); const bool full = n == cap; const char* fs = full ? "full" : "room";
        for (size_t k = 0; k < n; ++k) {
            int x = (int)k + 1; std::vector<int> w; ++n_lvalue;
            w = ins(v, cap, n, 1, x, false); one(cap, mn, off, n, "push_back(item)", k, std::string(fs) + (k == 0 && full ? ",the element overwritten" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.push_back(r); });
            w = ins(v, cap, 0, 1, x, true); one(cap, mn, off, n, "push_front(item)", k, std::string(fs) + (k + 1 == n && full ? ",the element overwritten" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.push_front(r); });
            for (size_t p = 0; p <= n; ++p) {
                const char* rel = k >= p ? "item at or after pos" : "item before pos"; 
                w = ins(v, cap, p, 1, x, false); one(cap, mn, off, n, "insert(pos,item)", k, std::string(fs) + "," + rel + (p == n ? ",at end" : "") + (full && k == 0 ? ",the element overwritten" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.insert(c.begin() + (long)p, r); });
                w = ins(v, cap, p, 1, x, true); one(cap, mn, off, n, "rinsert(pos,item)", k, std::string(fs) + "," + rel + (p == 0 ? ",at begin" : "") + (full && k + 1 == n ? ",the element overwritten" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.rinsert(c.begin() + (long)p, r); });
                for (size_t m = 0; m <= cap + 1; ++m) { size_t res = cap - n; const char* fit = m <= res ? "fits" : "overwrites";
                    w = ins(v, cap, p, m, x, false); one(cap, mn, off, n, "insert(pos,n,item)", k, std::string(m ? fit : "n=0") + "," + rel + (p == n ? ",at end" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.insert(c.begin() + (long)p, m, r); });
                    w = ins(v, cap, p, m, x, true); one(cap, mn, off, n, "rinsert(pos,n,item)", k, std::string(m ? fit : "n=0") + "," + rel + (p == 0 ? ",at begin" : ""), w, cap, [&](C& c) { const T& r = c[k]; c.rinsert(c.begin() + (long)p, m, r); }); }
            }
            for (size_t m = 0; m <= cap + 2; ++m) { const char* rel = m > cap ? "beyond capacity" : m > n ? "within capacity" : "shrinking";
                w = v; w.resize(m, x); one(cap, mn, off, n, "resize(n,item)", k, rel, w, std::max(cap, m), [&](C& c) { const T& r = c[k]; c.resize(m, r); });
                w = v; if (m > n) w.insert(w.begin(), m - n, x); else w.erase(w.begin(), w.end() - (long)m); one(cap, mn, off, n, "rresize(n,item)", k, rel, w, std::max(cap, m), [&](C& c) { const T& r = c[k]; c.rresize(m, r); }); }
            // swapping or assigning elements of one container with each other
            for (size_t q = 0; q < n; ++q) { w = v; w[q] = x; one(cap, mn, off, n, "c[i] = c[k]", k, "elements", w, cap, [&](C& c) { c[q] = c[k]; }); }
        }
        one(cap, mn, off, n, "self copy assignment", 0, "whole", v, cap, [&](C& c) { const C& r = c; c = r; });
        one(cap, mn, off, n, "self swap", 0, "whole", v, cap, [&](C& c) { c.swap(c); using std::swap; swap(c, c); });
        one(cap, mn, off, n, "set_capacity(own capacity)", 0, "whole", v, cap, [&](C& c) { c.set_capacity(c.capacity()); c.rset_capacity(c.capacity()); });
        if (n) one(cap, mn, off, n, "erase by own position", 0, "whole", std::vector<int>(v.begin() + 1, v.end()), cap, [&](C& c) { c.erase(c.begin()); });
    }
    static std::string want_tags() { return mon::want(); }
    static bool& mute() { return mon::muted_flag(); }
    static uint64_t muted() { return mon::muted_count(); }
    static void drive(const char* nm, size_t maxcap) { sname = nm; for (size_t cap = 1; cap <= maxcap; ++cap) for (size_t n = 0; n <= cap; ++n) for (size_t off = 0; off < cap; ++off) { if (SO) { if (off > 1) continue; all(cap, 0, off, n); all(cap, cap, off, n); if (cap > 2) all(cap, cap / 2, off, n); } else all(cap, 0, off, n); } }
};
int main(int argc, char** argv) {
    install(); for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    auto arg = [&](const char* n, unsigned long long d) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], n)) return std::strtoull(argv[i + 1], 0, 0); return d; };
    size_t cap = arg("-cap", 4); max_viol() = 1000000; dedup_keys() = true;
    unsigned part = (unsigned)arg("-part", 31);
    if (part & 1) D<boost::circular_buffer<ElemN, MonAlloc<ElemN> > >::drive("cb<N>", cap);
    if (part & 2) D<boost::circular_buffer<ElemC, MonAlloc<ElemC> > >::drive("cb<C>", cap);
    if (part & 4) D<boost::circular_buffer_space_optimized<ElemN, MonAlloc<ElemN> > >::drive("so<N>", cap);
    if (part & 8) D<boost::circular_buffer_space_optimized<ElemC, MonAlloc<ElemC> > >::drive("so<C>", cap);
    if (part & 16) { D<boost::circular_buffer<int, MonAlloc<int> > >::drive("cb<int>", cap); D<boost::circular_buffer_space_optimized<int, MonAlloc<int> > >::drive("so<int>", cap); D<boost::circular_buffer<std::string, MonAlloc<std::string> > >::drive("cb<string>", cap); D<boost::circular_buffer_space_optimized<std::string, MonAlloc<std::string> > >::drive("so<string>", cap); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"selfref\",\"cases\":%llu,\"distinct\":%llu,\"classes\":%zu,\"referring_arguments\":%llu}\n", (unsigned long long)n_cases, (unsigned long long)n_cases, classes.size(), (unsigned long long)n_lvalue);
    return wanted_count() ? 1 : 0;
}

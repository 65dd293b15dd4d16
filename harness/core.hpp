// Model-based driver: executes operations of the real containers, compares every observable with a
// reference sequence, and reads the monitors (element registry, allocator ledger, fault injector).
#pragma once
#include "mon.hpp"
#include "ranges.hpp"
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <type_traits>
#include <chrono>
#include <set>

namespace mon {

// =====================================================================  reference model
struct Model {
    std::vector<int> v; size_t cap = 0, mincap = 0; bool so = false;
    size_t reserve() const { return cap - v.size(); }
    bool full() const { return cap == v.size(); }
    void push_back(int x) { if (!cap) return; if (full()) v.erase(v.begin()); v.push_back(x); }
    void push_front(int x) { if (!cap) return; if (full()) v.pop_back(); v.insert(v.begin(), x); }
    // returns index of the inserted element, or begin when nothing is inserted
    size_t insert1(size_t i, int x) { if (full()) { if (i == 0) return 0; v.erase(v.begin()); --i; } v.insert(v.begin() + (long)i, x); return i; }
    size_t rinsert1(size_t i, int x) { if (full()) { if (i == v.size()) return v.size(); v.pop_back(); } v.insert(v.begin() + (long)i, x); return i; }
    void insert_n(size_t i, const std::vector<int>& xs, size_t n) {           // xs holds the last min(n, xs.size()) items
        size_t keep = std::min(n, i + reserve()), over = std::min(i, n > reserve() ? n - reserve() : 0);
        std::vector<int> mid(xs.end() - (long)keep, xs.end());
        v.insert(v.begin() + (long)i, mid.begin(), mid.end());
        v.erase(v.begin(), v.begin() + (long)over);
    }
    void rinsert_n(size_t i, const std::vector<int>& xs, size_t n) {
        size_t room = (v.size() - i) + reserve(), keep = std::min(n, room);
        size_t over = std::min(v.size() - i, n > reserve() ? n - reserve() : 0);
        std::vector<int> mid(xs.begin(), xs.begin() + (long)keep);
        v.insert(v.begin() + (long)i, mid.begin(), mid.end());
        v.resize(v.size() - over);
    }
    void erase(size_t a, size_t b) { v.erase(v.begin() + (long)a, v.begin() + (long)b); }
    void set_cap(size_t c, size_t mc, bool front) { cap = c; mincap = mc; if (v.size() > c) { if (front) v.erase(v.begin(), v.end() - (long)c); else v.resize(c); } }
    void resize(size_t n, int x, bool front) {
        if (n <= v.size()) { if (front) v.erase(v.begin(), v.end() - (long)n); else v.resize(n); return; }
        if (n > cap) cap = n;
        size_t k = n - v.size();
        if (front) v.insert(v.begin(), k, x); else v.insert(v.end(), k, x);
    }
};

// =====================================================================  operations
enum Code {
    PB_C, PB_M, PB_D, PF_C, PF_M, PF_D, POP_B, POP_F,
    INS_C, INS_M, INS_D, INS_N, INS_R, RINS_C, RINS_M, RINS_D, RINS_N, RINS_R,
    ERASE1, ERASER, RERASE1, RERASER, ERASE_BEG, ERASE_END, CLEAR,
    RESIZE, RRESIZE, SETCAP, RSETCAP,
    ASG_N, ASG_CN, ASG_R, ASG_CR, COPYA, MOVEA, SELFA, SWAP_M, SWAP_F, SELFSWAP,
    K_DEF, K_CAP, K_N, K_CN, K_R, K_CR, K_COPY, K_MOVE,
    LIN, ROT, W_IDX, W_AT, W_IT, W_FRONT, W_BACK, W_RIT, W_ARR, OBS,
    RESIZE_D, RRESIZE_D, CODE_COUNT
};
inline const char* code_name(int c) {
    static const char* n[] = {"push_back(const&)", "push_back(&&)", "push_back()", "push_front(const&)", "push_front(&&)", "push_front()", "pop_back", "pop_front",
        "insert(pos,const&)", "insert(pos,&&)", "insert(pos)", "insert(pos,n,item)", "insert(pos,range)",
        "rinsert(pos,const&)", "rinsert(pos,&&)", "rinsert(pos)", "rinsert(pos,n,item)", "rinsert(pos,range)",
        "erase(pos)", "erase(first,last)", "rerase(pos)", "rerase(first,last)", "erase_begin", "erase_end", "clear",
        "resize", "rresize", "set_capacity", "rset_capacity",
        "assign(n,item)", "assign(cap,n,item)", "assign(range)", "assign(cap,range)", "copy-assign", "move-assign", "self-assign", "swap-member", "swap-free", "self-swap",
        "ctor()", "ctor(cap)", "ctor(n,item)", "ctor(cap,n,item)", "ctor(range)", "ctor(cap,range)", "copy-ctor", "move-ctor",
        "linearize", "rotate", "write[]", "write-at", "write-iterator", "write-front", "write-back", "write-reverse", "write-array", "observe",
        "resize(n)", "rresize(n)"};
    return n[c];
}
enum Group { G_PUSH = 1, G_INS = 2, G_ERASE = 4, G_CAP = 8, G_ASSIGN = 16, G_CTOR = 32, G_LIN = 64, G_WRITE = 128, G_RANGE = 256, G_OBS = 512 };
inline unsigned group_of(int c) {
    if (c <= POP_F) return G_PUSH;
    if (c == INS_R || c == RINS_R) return G_INS | G_RANGE;
    if (c <= RINS_R) return G_INS;
    if (c <= CLEAR) return G_ERASE;
    if (c <= RSETCAP || c == RESIZE_D || c == RRESIZE_D) return G_CAP;
    if (c == ASG_R || c == ASG_CR) return G_ASSIGN | G_RANGE;
    if (c <= SELFSWAP) return G_ASSIGN;
    if (c == K_R || c == K_CR) return G_CTOR | G_RANGE;
    if (c <= K_MOVE) return G_CTOR;
    if (c <= ROT) return G_LIN;
    if (c < OBS) return G_WRITE;
    return G_OBS;
}
inline const char* state_tag(int c) {        // which property's specification decides the resulting state
    unsigned g = group_of(c);
    if (g & G_PUSH) return "state-push";
    if (g & G_INS) return "state-insert";
    if (g & G_ERASE) return "state-erase";
    if (g & G_CAP) return c == SETCAP || c == RSETCAP ? "state-build" : "state-erase";
    if (g & (G_ASSIGN | G_CTOR)) return "state-build";
    if (g & G_LIN) return "state-lin";
    return "access";
}
struct Op { int code; size_t a, b; int c; };
const size_t HUGE_N[] = {(size_t)-1, (size_t)-2, (size_t)-1 / 2 + 1, (size_t)-1 / 2, (size_t)-1 / 4 + 3};
inline bool is_huge(size_t n) { return n > ((size_t)1 << 40); }

inline std::string op_str(const Op& o) { char b[120]; std::snprintf(b, sizeof b, "%d,%zu,%zu,%d", o.code, o.a, o.b, o.c); return b; }
inline std::string op_human(const Op& o) { char b[200];
    std::snprintf(b, sizeof b, "%s a=%zu b=%zu%s%s", code_name(o.code), o.a, o.b, (group_of(o.code) & G_RANGE) ? " range=" : "", (group_of(o.code) & G_RANGE) ? range_name(o.c) : (o.c ? " variant 1" : "")); return b; }

template <class C> struct is_so { enum { value = 0 }; };
template <class T, class A> struct is_so<boost::circular_buffer_space_optimized<T, A> > { enum { value = 1 }; };

struct Stats {
    uint64_t cases, ops, fault_points, faults_fired, checks, throws, allocs, states, len_errors;
    uint64_t per_code[CODE_COUNT]; uint64_t per_kind[RK_COUNT];
    uint64_t stable_refs, moved_relocs, copied_relocs, lin_moves, wrapped, fullstates;
    std::set<uint64_t> distinct;
};
inline Stats& stats() { static Stats s = {}; return s; }

// A "call scope": faults are armed and counters sampled only while the library runs
struct CallEnv {
    bool fault_on = false; long k = -1; unsigned mask = 0;
    Count before = {}, delta = {}; long points = 0; long fired = 0; long thrown_id = 0;
};
inline CallEnv& env() { static CallEnv e; return e; }
#if BOOST_CB_ENABLE_DEBUG
// the assertion handler only counts: a probe expects a report or expects none, everything else expects none
struct Dbg { long n; char text[300]; unsigned long long probes_valid, probes_invalid, fills; };
inline Dbg& dbg() { static Dbg d; return d; }
template <class F> inline bool dbg_hit(F f) { long a = dbg().n; f(); bool hit = dbg().n != a; dbg().n = a; return hit; }
inline void dbg_clean() { if (dbg().n) { dbg().n = 0; viol("debug", "false-assert", "assertion reported for valid use: %s", dbg().text); } }
#else
inline void dbg_clean() {}
#endif
struct Call {
    Call() { progress() = progress() + 1; call_ops() = 0; CallEnv& e = env(); e.before = cnt(); arm(e.fault_on ? e.k : -1, e.fault_on ? e.mask : (unsigned)(F_ELEM | F_ALLOC | F_SRC | F_CMP)); }
    ~Call() { CallEnv& e = env(); e.delta = cnt() - e.before; e.points = fs().points; e.fired = fs().fired; e.thrown_id = fs().next_id; disarm(); given_ids().clear(); dbg_clean(); }
};

// =====================================================================  one world = a few containers + models
template <class C> struct World {
    typedef typename C::value_type T;
    typedef typename C::allocator_type A;
    typedef typename C::iterator It;
    typedef typename C::const_iterator CIt;
    enum { SO = is_so<C>::value, MON = std::is_same<A, MonAlloc<T> >::value };
    static const int N = 3;
    C* c[N]; Model m[N];
    int nextv; int next_id; size_t driver_live;
    std::vector<C*> spare;
    bool monotone_src_ok;

    World() : nextv(1), next_id(1), driver_live(0), monotone_src_ok(true) { for (int i = 0; i < N; ++i) c[i] = 0; }
    ~World() { if (!case_failed()) clear_all(); else abandon(); }
    int val() { int x = nextv++; return x; }
    static int nv(int x) { return ET<T>::norm(x); }
    A alloc() { return mk_alloc((A*)0); }
    MonAlloc<T> mk_alloc(MonAlloc<T>*) { return MonAlloc<T>(next_id++); }
    template <class X> X mk_alloc(X*) { return X(); }
    static C* raw() { return static_cast<C*>(::operator new(sizeof(C))); }
    void drop(int i) { if (c[i]) { c[i]->~C(); ::operator delete(c[i]); c[i] = 0; } m[i] = Model(); }
    void abandon() { for (int i = 0; i < N; ++i) { c[i] = 0; } }
    void clear_all() { for (int i = 0; i < N; ++i) drop(i); }

    typedef typename C::capacity_type CapT;
    static CapT mkcap_(size_t cap, size_t mn, std::true_type) { return CapT(cap, mn); }
    static CapT mkcap_(size_t cap, size_t, std::false_type) { return (CapT)cap; }
    static CapT mkcap(size_t cap, size_t mn) { return mkcap_(cap, mn, std::integral_constant<bool, SO>()); }
    static size_t min_of_(const C& x, std::true_type) { return x.capacity().min_capacity(); }
    static size_t min_of_(const C&, std::false_type) { return 0; }
    static size_t min_of(const C& x) { return min_of_(x, std::integral_constant<bool, SO>()); }

    // ---------------------------------------------------------------- building a given state
    // physical offset off, size n, logical capacity cap; for the space optimized variant also an initial
    // internal size (init) that shapes the internal buffer.
    void build(int i, size_t cap, size_t mn, size_t init, size_t off, size_t n) {
        drop(i);
        Model& mm = m[i]; mm = Model(); mm.cap = cap; mm.mincap = SO ? mn : 0; mm.so = SO;
        A al = alloc();
        if (SO) {
            C* p = raw();
            if (init > cap) init = cap;
            SrcArray<T> a(std::vector<int>(init, 5));
            new (p) C(mkcap(cap, mn), std::make_move_iterator(a.b()), std::make_move_iterator(a.e()), al);
            c[i] = p;
            if (init) { if (off % init) p->rotate(p->begin() + (long)(off % init)); for (size_t k = 0; k < init && p->size() > n; ++k) p->pop_back(); }
            size_t sz = p->size();
            if (sz > n) std::abort();
            // renumber what is there, then push the rest alternately
            for (size_t k = 0; k < sz; ++k) { int x = val(); ET<T>::set((*p)[k], x); mm.v.push_back(nv(x)); }
            while (p->size() < n) { int x = val(); if (off & 1) { p->push_front(ET<T>::mk(x)); mm.push_front(nv(x)); } else { p->push_back(ET<T>::mk(x)); mm.push_back(nv(x)); } }
        } else {
            C* p = raw(); new (p) C(mkcap(cap, 0), al); c[i] = p;
            for (size_t k = 0; cap && k < off; ++k) { p->push_back(ET<T>::mk(0)); p->pop_front(); }
            for (size_t k = 0; k < n; ++k) { int x = val(); p->push_back(ET<T>::mk(x)); mm.push_back(nv(x)); }
        }
    }

    static bool cbegin_ok(const C& x, CIt b, CIt e, std::false_type) { return x.cbegin() == b && x.cend() == e; }
    static bool cbegin_ok(const C&, CIt, CIt, std::true_type) { return true; }      // not part of that class's interface
    // ---------------------------------------------------------------- full observation
    void fail(const char* tag, const char* key, const std::string& msg) { viol(tag, key, "%s", msg.c_str()); }
    static std::string show(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ' '; if (i > 24) { s += "..."; break; } s += std::to_string(v[i]); } return s + "]"; }

    bool check(int i, const char* tag, bool deep = true) {
        if (case_failed()) return false;
        ++stats().checks;
        C& x = *c[i]; const C& kx = x; const Model& mm = m[i];
        const size_t n = mm.v.size();
        if (kx.size() != n) { viol(tag, "size", "size() is %zu, specified %zu", (size_t)kx.size(), n); return false; }
        if ((size_t)kx.capacity() != mm.cap) { viol(tag, "capacity", "capacity() is %zu, specified %zu", (size_t)kx.capacity(), mm.cap); return false; }
        if (SO && min_of(kx) != mm.mincap) { viol(tag, "min-capacity", "min_capacity() is %zu, specified %zu", min_of(kx), mm.mincap); return false; }
        if (kx.empty() != (n == 0)) viol("access", "empty", "empty() is %d with size %zu", (int)kx.empty(), n);
        if (kx.full() != (n == mm.cap)) viol("access", "full", "full() is %d with size %zu capacity %zu", (int)kx.full(), n, mm.cap);
        if (kx.reserve() != mm.cap - n) viol("access", "reserve", "reserve() is %zu with size %zu capacity %zu", (size_t)kx.reserve(), n, mm.cap);
        // the sequence through indexing decides the state; everything else must agree with it
        std::vector<const T*> at(n);
        size_t step = deep ? 1 : std::max<size_t>(1, n / 32);
        for (size_t k = 0; k < n; ++k) at[k] = &kx[k];
        if (ET<T>::tracked) for (size_t k = 0; k < n; ++k) if (!live().has(at[k])) { viol("lifetime", "dead-element", "element %zu of %zu: no live object at its address", k, n); return false; }
        for (size_t k = 0; k < n; k += step) { int g = ET<T>::get(*at[k]);
            if (g != mm.v[k]) { std::vector<int> got; for (size_t q = 0; q < n; ++q) got.push_back(ET<T>::get(*at[q])); fail(tag, "sequence", "contents " + show(got) + " specified " + show(mm.v)); return false; } }
        for (size_t k = 0; k < n; k += step) if (&x[k] != at[k] || &x.at(k) != at[k] || &kx.at(k) != at[k]) { viol("access", "index", "[] and at() disagree at %zu", k); break; }
        if (n) { if (&kx.front() != at[0] || &x.front() != at[0]) viol("access", "front", "front() is not element 0"); if (&kx.back() != at[n - 1] || &x.back() != at[n - 1]) viol("access", "back", "back() is not element %zu", n - 1); }
        for (int w = 0; w < (deep ? 3 : 1); ++w) {
            size_t idx = w == 0 ? n : w == 1 ? n + 1 + n / 2 : (size_t)-1; int thrown = 0;
            try { (void)kx.at(idx); } catch (const std::out_of_range&) { thrown = 1; } catch (...) { thrown = 2; }
            if (thrown != 1) viol("access", "at-range", "at(%zu) with size %zu: %s", idx, n, thrown ? "wrong exception" : "no exception");
            thrown = 0;
            try { (void)x.at(idx); } catch (const std::out_of_range&) { thrown = 1; } catch (...) { thrown = 2; }
            if (thrown != 1) viol("access", "at-range", "non-const at(%zu) with size %zu: %s", idx, n, thrown ? "wrong exception" : "no exception");
        }
        // arrays
        std::pair<const T*, size_t> p1(boost::to_address(kx.array_one().first), kx.array_one().second), p2(boost::to_address(kx.array_two().first), kx.array_two().second);
        if (p1.second + p2.second != n) viol("access", "arrays-size", "array_one/two hold %zu+%zu elements, size is %zu", p1.second, p2.second, n);
        else {
            bool ok = true;
            for (size_t k = 0; k < n && ok; k += step) ok = at[k] == (k < p1.second ? p1.first + k : p2.first + (k - p1.second));
            if (!ok) viol("access", "arrays", "array_one followed by array_two is not the sequence");
            if (boost::to_address(x.array_one().first) != p1.first || x.array_one().second != p1.second || x.array_two().second != p2.second || (p2.second && boost::to_address(x.array_two().first) != p2.first))
                viol("access", "arrays-const", "const and non-const array ranges differ");
        }
        bool contiguous = true;
        for (size_t k = 1; k < n; ++k) if (at[k] != at[k - 1] + 1) { contiguous = false; break; }
        if (!contiguous) ++stats().wrapped;
        if (n && n == mm.cap) ++stats().fullstates;
        if (kx.is_linearized() != contiguous) viol("lin", "is_linearized", "is_linearized() is %d, storage is %scontiguous (size %zu)", (int)kx.is_linearized(), contiguous ? "" : "not ", n);
        if (contiguous && n && p2.second) viol("lin", "array-two-linear", "storage is linear but array_two() holds %zu elements", p2.second);
        // iterators
        {
            CIt b = kx.begin(), e = kx.end(); It nb = x.begin(), ne = x.end();
            if ((size_t)(e - b) != n || (size_t)(ne - nb) != n) viol("iter", "distance", "end()-begin() is %ld, size %zu", (long)(e - b), n);
            if (!cbegin_ok(x, b, e, std::integral_constant<bool, SO>())) viol("iter", "cbegin", "cbegin/cend differ from begin/end");
            size_t k = 0; bool ok = true;
            for (CIt q = b; q != e && k < n + 1; ++q, ++k) if (k >= n || &*q != at[k]) { ok = false; break; }
            if (!ok || k != n) viol("iter", "forward", "forward iteration leaves the sequence at step %zu of %zu", k, n);
            if (deep) {
                k = n; ok = true;
                for (It q = ne; q != nb && k > 0;) { --q; --k; if (&*q != at[k]) { ok = false; break; } }
                if (!ok || k) viol("iter", "backward", "backward iteration leaves the sequence at %zu of %zu", k, n);
                k = n; ok = true;
                for (typename C::const_reverse_iterator r = kx.rbegin(); r != kx.rend(); ++r) { if (!k || &*r != at[--k]) { ok = false; break; } }
                if (!ok || k) viol("iter", "reverse", "rbegin()..rend() leaves the reversed sequence at %zu of %zu", k, n);
                k = n; ok = true;
                for (typename C::reverse_iterator r = x.rbegin(); r != x.rend(); ++r) { if (!k || &*r != at[--k]) { ok = false; break; } }
                if (!ok || k) viol("iter", "reverse", "non-const rbegin()..rend() leaves the reversed sequence at %zu of %zu", k, n);
            }
            for (size_t q = 0; q < n; q += step) if (&*(b + (long)q) != at[q] || &b[(long)q] != at[q] || &*(ne - (long)(n - q)) != at[q] || (size_t)((nb + (long)q) - b) != q) { viol("iter", "random", "iterator arithmetic reaches the wrong element at %zu of %zu", q, n); break; }
            if (!(b + (long)n == e) || !(ne - (long)n == nb)) viol("iter", "ends", "begin()+size() != end()");
        }
        return !case_failed();
    }
    // monitors at quiescence: every live element is in a container, every block is owned
    void check_world(int code) {
        if (case_failed()) return;
        (void)code;
        if (ET<T>::tracked) {
            size_t want = driver_live;
            for (int i = 0; i < N; ++i) if (c[i]) want += c[i]->size();
            if (live().size() != want) viol("lifetime", live().size() > want ? "leaked-elements" : "missing-elements", "%zu live elements, containers hold %zu", live().size(), want);
        }
        if (MON) {
            size_t held = 0, caps = 0, sizes = 0, owners = 0, sized = 0;
            for (const Block& b : blocks()) held += b.n;
            for (int i = 0; i < N; ++i) if (c[i]) { caps += (size_t)c[i]->capacity(); sizes += c[i]->size(); if ((size_t)c[i]->capacity()) ++owners; if (c[i]->size()) ++sized; }
            if (SO) {
                if (held > caps || held < sizes) viol("mem-policy", "held", "%zu elements' memory allocated; sizes sum to %zu, capacities to %zu", held, sizes, caps);
                if (blocks().size() > owners || blocks().size() < sized) viol("alloc", "block-count", "%zu blocks for %zu containers", blocks().size(), owners);
            } else {
                if (held != caps) viol("alloc", "block-size", "%zu elements' memory allocated, capacities sum to %zu", held, caps);
                if (blocks().size() != owners) viol("alloc", "block-count", "%zu blocks for %zu containers with capacity", blocks().size(), owners);
                for (int i = 0; i < N; ++i) if (c[i] && c[i]->size()) { const Block* b = block_of(&(*c[i])[0]);
                    if (!b) viol("alloc", "no-block", "elements are not inside an allocated block");
                    else { if (b->n != (size_t)c[i]->capacity()) viol("alloc", "block-size", "block of %zu elements, capacity %zu", b->n, (size_t)c[i]->capacity());
                        if (b->id != alloc_id(*c[i])) viol("alloc", "allocator-of-block", "block belongs to allocator %d, container reports %d", b->id, alloc_id(*c[i])); } }
            }
            // objects made through the allocator's construct() end through its destroy(), and the other way round
            if (!std::is_scalar<T>::value && cnt().hook_construct - cnt().hook_destroy - hook_base() != sizes) viol("alloc", "construct-destroy", "%lld more objects constructed than destroyed through the allocator, containers hold %zu", (long long)(cnt().hook_construct - cnt().hook_destroy - hook_base()), sizes);
            if (quarantine().size() > 64) flush_quarantine();
        }
        if (case_failed()) return;
    }
    static int alloc_id_(const C& x, std::true_type) { return x.get_allocator().id; }
    static int alloc_id_(const C&, std::false_type) { return 0; }
    static int alloc_id(const C& x) { return alloc_id_(x, std::integral_constant<bool, MON>()); }
    size_t block_elems(int i) const { size_t n = 0; int id = alloc_id(*c[i]); for (const Block& b : blocks()) if (b.id == id) n += b.n; return n; }


    // ---------------------------------------------------------------- stability of references and iterators
    struct Cap1 { It it; const T* p; int v; };
    std::vector<Cap1> cap_; bool cap_on = false; It old_end;
    bool no_fill = false; // after an exception the memory of rolled back elements keeps their traces
    void drop_captures() { cap_.clear(); cap_on = false; }
    void capture(int i) {
        cap_.clear(); cap_on = true; C& x = *c[i]; It q = x.begin();
        for (size_t k = 0; k < x.size(); ++k, ++q) { Cap1 z = {q, &*q, m[i].v[k]}; cap_.push_back(z); }
        old_end = x.end();
    }
#if BOOST_CB_ENABLE_DEBUG
    It dsink_; typename C::const_iterator dcsink_;
    // every iterator obtained before the operation is used again: an assertion must fire exactly for those the documentation calls invalidated
    void dbg_iter(It& it, bool valid, const char* what, size_t k) {
        typename C::const_iterator ci(it); It cp(it); volatile const void* sink; bool b = false;
        // < and - read the container, which may be gone: only when the iterator is expected to be valid
        It as; as = it;
        bool h[7] = {dbg_hit([&] { b = it == it; }), dbg_hit([&] { sink = std::addressof(*it); }), dbg_hit([&] { b = ci == ci; }), dbg_hit([&] { b = cp != it; }), dbg_hit([&] { b = as == it; }),
                     valid ? dbg_hit([&] { b = it < cp; }) : true, valid ? dbg_hit([&] { b = (it - cp) != 0; }) : true};
        (void)sink; (void)b; static const char* nm[] = {"==", "*", "== of a converted copy", "!= with a copy", "== with an assigned copy", "<", "-"};
        ++(valid ? dbg().probes_valid : dbg().probes_invalid);
        for (int q = 0; q < 7; ++q) if (h[q] == valid) { viol("debug", valid ? "false-invalidation" : "missed-invalidation", valid ? "%s on an iterator to %s %zu is reported although the operation keeps it" : "%s on an iterator to %s %zu is not reported although the operation invalidates it", nm[q], what, k); return; }
    }
    void dbg_end(bool valid) {
        bool b = false; ++(valid ? dbg().probes_valid : dbg().probes_invalid);
        bool h = dbg_hit([&] { b = old_end == old_end; }), h2 = valid ? dbg_hit([&] { b = old_end < old_end; }) : true;
        if (h == valid || h2 == valid) { viol("debug", valid ? "false-invalidation" : "missed-invalidation", "comparing an iterator equal to end() is %sreported", valid ? "" : "not "); return; }
        volatile const void* sink; if (!dbg_hit([&] { sink = &*old_end; })) viol("debug", "end-dereference", "dereferencing an iterator equal to end() is not reported"); (void)sink;
    }
    template <class Pred> void dbg_kept(Pred keep, bool inherited) {
        if (case_failed()) return;
        for (size_t k = 0; k < cap_.size() && !case_failed(); ++k) dbg_iter(cap_[k].it, (SO && !inherited) ? false : keep((long)k) >= 0, "element", k);
        if (!case_failed()) dbg_end(true);
    }
    // memory that holds no element shows the fill pattern
    void dbg_fill(int i) {
        if (!MON || no_fill || case_failed() || !c[i]) return;
        C& x = *c[i]; std::vector<const T*> at; for (size_t k = 0; k < x.size(); ++k) at.push_back(&x[k]);
        for (const Block& b : blocks()) {
            if (b.id != alloc_id(x)) continue;
            if (!at.empty() && !((const char*)at[0] >= b.p && (const char*)at[0] < b.p + b.bytes)) continue;
            std::vector<char> used(b.n, 0); for (const T* q : at) used[(size_t)(((const char*)q - b.p)) / sizeof(T)] = 1;
            for (size_t q = 0; q < b.n; ++q) if (!used[q]) { ++dbg().fills; for (size_t z = 0; z < sizeof(T); ++z) if ((unsigned char)b.p[q * sizeof(T) + z] != 0xcc) { viol("debug", "fill", "slot %zu of %zu holds no element but byte %zu is %02x instead of cc", q, b.n, z, (unsigned char)b.p[q * sizeof(T) + z]); return; } }
        }
    }
#endif
    // keep(k): new index of old element k if the operation is specified to keep its iterators, else -1
    template <class Pred> void kept(int i, Pred keep, bool end_kept, bool inherited = false) {
        (void)inherited;
#if BOOST_CB_ENABLE_DEBUG
        if (cap_on) dbg_kept(keep, inherited);
#endif
        if (!cap_on || case_failed() || SO) return;
        cap_on = false;
        C& x = *c[i];
        for (size_t k = 0; k < cap_.size(); ++k) {
            long to = keep((long)k);
            if (to < 0) continue;
            ++stats().stable_refs;
            Cap1& z = cap_[k];
            if (&x[(size_t)to] != z.p) { viol("stable", "reference", "element %zu moved to another address although the operation keeps references to it", k); return; }
            if (&*z.it != z.p) { viol("stable", "iterator", "iterator to element %zu refers elsewhere although the operation keeps it valid", k); return; }
            if (ET<T>::get(*z.it) != z.v) { viol("stable", "value", "element %zu reads %d through a kept iterator, was %d", k, ET<T>::get(*z.it), z.v); return; }
            if ((long)(z.it - x.begin()) != to) { viol("stable", "position", "kept iterator of element %zu is at distance %ld, expected %ld", k, (long)(z.it - x.begin()), to); return; }
            if (!(x.begin() + to == z.it)) { viol("stable", "equality", "kept iterator of element %zu differs from begin()+%ld", k, to); return; }
        }
        if (end_kept) { ++stats().stable_refs; if (!(old_end == x.end())) viol("stable", "end", "an iterator equal to end() no longer is"); }
        cap_.clear();
    }

    // ---------------------------------------------------------------- helpers used by apply
    size_t n0, held0; bool min_ok0;
    template <class F> void call(F f) { if (MON) { std::vector<int>& g = given_ids(); g.clear(); g.push_back(next_id - 1); for (int q = 0; q < N; ++q) if (c[q]) g.push_back(alloc_id(*c[q])); } Call s; f(); }
    void ret(It it, size_t idx, const char* tag) {
        C& x = *cur; long got = (long)(it - x.begin());
        if (got != (long)idx) viol(tag, "returned-iterator", "returned iterator is at %ld, specified %zu (size %zu)", got, idx, (size_t)x.size());
        else if (!(it == x.begin() + (long)idx) || (idx == x.size()) != (it == x.end())) viol(tag, "returned-iterator", "returned iterator at %zu does not compare equal to begin()+%zu", idx, idx);
    }
    C* cur;
    void budget(uint64_t bound, bool constant_dtor = false) {
        if (!ET<T>::tracked || env().fault_on) return;
        uint64_t w = work(env().delta);
        if (SO) bound += 4 * (n0 + cur->size()) + 16;
        if (w > bound) viol("cost", "element-operations", "%llu element constructions and assignments, documented complexity allows about %llu (size was %zu)", (unsigned long long)w, (unsigned long long)bound, n0);
        if (constant_dtor && !SO && env().delta.dtor > 6) viol("cost", "destructions", "%llu element destructions in a constant-time operation", (unsigned long long)env().delta.dtor);
    }
    void copies(uint64_t max) {       // applies to element types whose moves cannot throw
        if (!ET<T>::tracked || !ET<T>::nxc || !ET<T>::nxa || !ET<T>::copyable) return;
        uint64_t k = env().delta.cctor + env().delta.cassign; stats().moved_relocs += env().delta.mctor + env().delta.massign;
        if (k > max) viol("move", "copied", "%llu element copies where moves are specified (at most %llu)", (unsigned long long)k, (unsigned long long)max);
    }
    void no_moves() {                 // types whose move construction may throw are relocated by copying
        if (!ET<T>::tracked || ET<T>::nxc || !ET<T>::copyable) return;
        stats().copied_relocs += env().delta.cctor;
        if (env().delta.mctor + env().delta.massign) viol("move", "moved-throwing", "%llu elements whose move may throw were moved by an operation with the strong guarantee", (unsigned long long)(env().delta.mctor + env().delta.massign));
    }
    // an rvalue argument that gets into the container is moved from, also when moving may throw
    void taken(const T& item) { if constexpr (ET<T>::tracked) { if (ET<T>::movable && item.v != MOVED) viol("move", "rvalue-copied", "an rvalue argument was not moved into the container"); } else (void)item; }
    // elements of the source that do not get into the container are not moved from
    void untouched(int kind, size_t from, size_t to) {
        if (kind == RK_MOVE && ET<T>::tracked && ET<T>::movable) for (size_t k = 0; k < moved_out().size(); ++k) if ((k < from || k >= to) && !moved_out()[k]) { viol("move", "move-iterator-copied", "element %zu of a range of move iterators was not moved from", k); return; }
        if (kind == RK_MOVE) for (size_t k = from; k < to && k < moved_out().size(); ++k) if (moved_out()[k]) { viol("range", "discarded-moved", "source element %zu was moved from although it is not inserted", k); return; } }
    void no_alloc() { if (MON && !SO && env().delta.alloc) viol("alloc", "unexpected-allocation", "%llu allocations in an operation specified not to allocate", (unsigned long long)env().delta.alloc); }
    void no_throw_points() { if (env().points) viol("nothrow", "throwing-operation", "%ld operations that may throw were performed inside a no-throw operation", env().points); }
    void mem_exact(size_t want) { if (MON && SO) { size_t h = block_elems_cur(); if (h != want) viol("mem-policy", "documented-amount", "memory for %zu elements allocated, documented amount %zu", h, want); } }
    size_t block_elems_cur() const { size_t n = 0; int id = alloc_id(*cur); for (const Block& b : blocks()) if (b.id == id) n += b.n; return n; }

    void budget0(uint64_t bound) { if (ET<T>::tracked && !env().fault_on && work(env().delta) > bound) viol("cost", "element-operations", "%llu element operations in a construction, documented complexity allows about %llu", (unsigned long long)work(env().delta), (unsigned long long)bound); }
    static void k_n_(C* p, size_t n, const T& v, const A& al, std::true_type) { new (p) C(mkcap(n, 0), v, al); }
    static void k_n_(C* p, size_t n, const T& v, const A& al, std::false_type) { new (p) C(n, v, al); }
    static void k_n(C* p, size_t n, const T& v, const A& al) { k_n_(p, n, v, al, std::integral_constant<bool, SO>()); }
    static void k_int(C* p, int n, int v, const A& al) { new (p) C(n, v, al); }
    // a moved-from container is empty and fully usable; afterwards slot j holds a fresh container
    void moved_from(int j, const char* tag) {
        C& y = *c[j]; (void)tag;
        if (!y.empty() || y.size() != 0 || !(y.begin() == y.end())) { viol("move", "moved-from-empty", "moved-from container has size %zu", (size_t)y.size()); return; }
        int v = val(), w = val();
        y.set_capacity(mkcap(3, 0)); y.push_back(ET<T>::mk(v)); y.push_front(ET<T>::mk(w));
        if (y.size() != 2 || ET<T>::get(y[0]) != nv(w) || ET<T>::get(y[1]) != nv(v)) { viol("move", "moved-from-usable", "moved-from container cannot be reused"); return; }
        m[j].v.clear(); m[j].v.push_back(nv(w)); m[j].v.push_back(nv(v)); m[j].cap = 3; m[j].mincap = 0; m[j].so = SO;
        if (check(j, "move")) build(j, 2 + (size_t)val() % 4, 0, 1, 1, 1);   // a fresh allocator identity for later steps
    }

    bool apply(int i, int j, const Op& o);
    void finish(int i, const Op& o) {
        // memory policy common to every operation of the space optimized variant
        if (SO && MON && !case_failed() && cur) {
            size_t h = block_elems_cur(), n = cur->size(), cap = (size_t)cur->capacity(), mn = m[i].mincap;
            if (h < n || h > cap) viol("mem-policy", "bounds", "memory for %zu elements with size %zu and capacity %zu", h, n, cap);
            bool copyop = o.code == COPYA || o.code == K_COPY || o.code == K_MOVE || o.code == MOVEA || o.code == SWAP_M || o.code == SWAP_F;
            if (!copyop && min_ok0 && h < mn) viol("mem-policy", "min-capacity", "memory for %zu elements, below min_capacity %zu", h, mn);
            unsigned g = group_of(o.code);
            bool grow = (g & (G_PUSH | G_INS)) && o.code != POP_B && o.code != POP_F;
            if (grow && h > std::max(std::max(held0, mn), 4 * n + 8)) viol("mem-policy", "over-growth", "memory for %zu elements after an insertion leaving %zu (was %zu)", h, n, held0);
            bool shrink = (g & G_ERASE) || o.code == POP_B || o.code == POP_F;
            if (shrink && n < n0) {
                if (h > std::max(mn, 4 * n + 8)) viol("mem-policy", "not-released", "memory for %zu elements kept after a removal leaving %zu (min_capacity %zu)", h, n, mn);
                if (h > held0) viol("mem-policy", "grew-on-removal", "a removal grew the allocated memory from %zu to %zu elements", held0, h);
            }
        }
    }
};

template <class T> inline T mkv(int x) { return ET<T>::mk(x); }

template <class C> bool op_ok(int code) {
    typedef typename C::value_type T;
    if (!ET<T>::copyable) switch (code) {
        case PB_C: case PF_C: case INS_C: case RINS_C: case INS_N: case RINS_N: case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: case ASG_N: case ASG_CN: case COPYA:
        case K_N: case K_CN: case K_COPY: case SELFA: case INS_R: case RINS_R: return false; default: break; }
    return true;
}

template <class C> bool World<C>::apply(int i, int j, const Op& o) {
    typedef std::integral_constant<bool, (bool)ET<T>::copyable> Copyable; (void)sizeof(Copyable);
    constexpr bool COPY = ET<T>::copyable;
    constexpr bool INTS = COPY && std::is_convertible<int, T>::value;
    C& x = *c[i]; Model& mm = m[i]; cur = c[i];
#if BOOST_CB_ENABLE_DEBUG
    std::vector<Cap1> old_j; It end_j; const bool two = o.code == SWAP_M || o.code == SWAP_F, ctor = group_of(o.code) == G_CTOR || o.code == K_R || o.code == K_CR;
    if (two && i != j && c[j]) { capture(j); old_j = cap_; end_j = old_end; }
    if (two || ctor) capture(i);
#endif
    n0 = mm.v.size(); held0 = MON ? block_elems(i) : 0; min_ok0 = held0 >= mm.mincap;
    ++stats().ops; ++stats().per_code[o.code];
    const size_t a = o.a, b = o.b; const int kind = o.c & 31; const size_t mn = SO ? std::min((size_t)(o.c >> 5), is_huge(a) ? a : a) : 0;
    if (group_of(o.code) & G_RANGE) ++stats().per_kind[kind];
    const bool full0 = mm.full(); const long N0 = (long)n0;
    const char* tag = state_tag(o.code);
    auto pos = [&](size_t k) { return x.begin() + (long)k; };
    auto seq = [&](size_t n) { std::vector<int> r; for (size_t k = 0; k < n; ++k) r.push_back(val()); return r; };
    auto norm = [&](std::vector<int> r) { for (int& q : r) q = nv(q); return r; };
    // the model keeps only what an insertion of n (possibly huge) equal items can use
    auto items = [&](size_t n, int v) { return std::vector<int>(std::min(n, mm.cap + 1), nv(v)); };
    switch (o.code) {
    // ------------------------------------------------------------ pushes and pops
    case PB_C: case PB_M: case PB_D: {
        int v = o.code == PB_D ? 0 : val();
        if (o.code == PB_D) call([&] { x.push_back(); });
        else { T item = mkv<T>(v); if (o.code == PB_M) { call([&] { x.push_back(std::move(item)); }); if (mm.cap) taken(item); } else if constexpr (COPY) call([&] { x.push_back((const T&)item); }); }
        mm.push_back(nv(v));
        budget(6, true); copies(o.code == PB_C ? 2 : 0); no_alloc();
        kept(i, [&](long k) { return !mm.cap ? -1 : full0 ? k - 1 : k; }, false);
        break; }
    case PF_C: case PF_M: case PF_D: {
        int v = o.code == PF_D ? 0 : val();
        if (o.code == PF_D) call([&] { x.push_front(); });
        else { T item = mkv<T>(v); if (o.code == PF_M) { call([&] { x.push_front(std::move(item)); }); if (mm.cap) taken(item); } else if constexpr (COPY) call([&] { x.push_front((const T&)item); }); }
        mm.push_front(nv(v));
        budget(6, true); copies(o.code == PF_C ? 2 : 0); no_alloc();
        kept(i, [&](long k) { return full0 && k == N0 - 1 ? -1 : k + 1; }, false);
        break; }
    case POP_B: call([&] { x.pop_back(); }); mm.v.pop_back(); budget(2, true); copies(0); no_alloc(); if (!SO) no_throw_points(); kept(i, [&](long k) { return k < N0 - 1 ? k : -1; }, false); break;
    case POP_F: call([&] { x.pop_front(); }); mm.v.erase(mm.v.begin()); budget(2, true); copies(0); no_alloc(); if (!SO) no_throw_points(); kept(i, [&](long k) { return k - 1; }, false); break;
    // ------------------------------------------------------------ insertion
    case INS_C: case INS_M: case INS_D: {
        int v = o.code == INS_D ? 0 : val(); It r;
        if (o.code == INS_D) call([&] { r = x.insert(pos(a)); });
        else { T item = mkv<T>(v); if (o.code == INS_M) { call([&] { r = x.insert(pos(a), std::move(item)); }); if (!(full0 && a == 0)) taken(item); } else if constexpr (COPY) call([&] { r = x.insert(pos(a), (const T&)item); }); }
        bool none = full0 && a == 0;
        size_t at = mm.insert1(a, nv(v)); ret(r, at, tag);
        budget(4 * (n0 - a) + 8); copies(o.code == INS_C ? 2 : 0); no_alloc();
        kept(i, [&](long k) { return none ? k : k < (long)a ? k - (full0 ? 1 : 0) : -1; }, true);
        break; }
    case RINS_C: case RINS_M: case RINS_D: {
        int v = o.code == RINS_D ? 0 : val(); It r;
        if (o.code == RINS_D) call([&] { r = x.rinsert(pos(a)); });
        else { T item = mkv<T>(v); if (o.code == RINS_M) { call([&] { r = x.rinsert(pos(a), std::move(item)); }); if (!(full0 && a == n0)) taken(item); } else if constexpr (COPY) call([&] { r = x.rinsert(pos(a), (const T&)item); }); }
        bool none = full0 && a == n0;
        size_t at = mm.rinsert1(a, nv(v)); ret(r, at, tag);
        budget(4 * a + 8); copies(o.code == RINS_C ? 2 : 0); no_alloc();
        kept(i, [&](long k) { return none ? k : k < (long)a ? -1 : full0 && k == N0 - 1 ? -1 : k + 1; }, false);
        break; }
    case INS_N: case RINS_N: if constexpr (COPY) {
        int v = val(); const bool r = o.code == RINS_N;
        if (kind == 1) { if constexpr (INTS) { int n = (int)b; if (r) call([&] { x.rinsert(pos(a), n, v); }); else call([&] { x.insert(pos(a), n, v); }); } }
        else if (kind == 2) { if constexpr (INTS) { short n = (short)b; if (v > 30000) v = nextv = 1; short w = (short)v; if (r) call([&] { x.rinsert(pos(a), n, w); }); else call([&] { x.insert(pos(a), n, w); }); } }
        else { T item = mkv<T>(v); if (r) call([&] { x.rinsert(pos(a), b, item); }); else call([&] { x.insert(pos(a), b, item); }); }
        size_t room = (r ? n0 - a : a) + mm.reserve(), keep = std::min(b, room), over = std::min(r ? n0 - a : a, b > mm.reserve() ? b - mm.reserve() : 0);
        if (r) { mm.rinsert_n(a, items(b, v), b); budget(5 * std::min(mm.cap, a + keep) + 10); kept(i, [&](long k) { return !keep ? k : k < (long)a ? -1 : k >= N0 - (long)over ? -1 : k + (long)keep; }, false); }
        else { mm.insert_n(a, items(b, v), b); budget(5 * std::min(mm.cap, n0 - a + keep) + 10); kept(i, [&](long k) { return !keep ? k : k < (long)a ? k - (long)over : -1; }, true); }
        no_alloc();
        } break;
    case INS_R: case RINS_R: if constexpr (COPY) {
        const bool r = o.code == RINS_R; std::vector<int> xs = seq(b);
        size_t room = (r ? n0 - a : a) + mm.reserve(), keep = std::min(b, room), over = std::min(r ? n0 - a : a, b > mm.reserve() ? b - mm.reserve() : 0);
        with_range<T>(kind, xs, [&](auto f, auto l) { if (r) call([&] { x.rinsert(pos(a), f, l); }); else call([&] { x.insert(pos(a), f, l); }); });
        if (last_range().stream && last_range().derefs > b) viol("range", "input-reread", "%llu reads from a single-pass range of %zu", (unsigned long long)last_range().derefs, b);
        if (r) { mm.rinsert_n(a, norm(xs), b); if (!single_pass(kind)) budget(5 * (a + b) + 10); kept(i, [&](long k) { return !keep ? k : k < (long)a ? -1 : k >= N0 - (long)over ? -1 : k + (long)keep; }, false); }
        else { mm.insert_n(a, norm(xs), b); if (!single_pass(kind)) budget(5 * (n0 - a + b) + 10); kept(i, [&](long k) { return !keep ? k : k < (long)a ? k - (long)over : -1; }, true); }
        if (kind == RK_MOVE) copies(r ? a : n0 - a);
        if (r) untouched(kind, keep, b); else untouched(kind, 0, b - keep);
        no_alloc();
        } break;
    // ------------------------------------------------------------ removal
    case ERASE1: { It r; call([&] { r = x.erase(pos(a)); }); mm.erase(a, a + 1); ret(r, a, tag); budget(4 * (n0 - a) + 6); copies(0); no_alloc(); kept(i, [&](long k) { return k < (long)a ? k : -1; }, true); break; }
    case ERASER: { It r; call([&] { r = x.erase(pos(a), pos(b)); }); mm.erase(a, b); ret(r, a, tag); budget(4 * (n0 - a) + 6); copies(0); no_alloc(); kept(i, [&](long k) { return a == b || k < (long)a ? k : -1; }, true); break; }
    case RERASE1: { It r; call([&] { r = x.rerase(pos(a)); }); mm.erase(a, a + 1); ret(r, a ? a - 1 : 0, tag); budget(4 * a + 6); copies(0); no_alloc(); kept(i, [&](long k) { return k > (long)a ? k - 1 : -1; }, false); break; }
    case RERASER: { It r; call([&] { r = x.rerase(pos(a), pos(b)); }); mm.erase(a, b); if (a != b) ret(r, a ? a - 1 : 0, tag); budget(4 * b + 6); copies(0); no_alloc(); kept(i, [&](long k) { return a == b ? k : k >= (long)b ? k - (long)(b - a) : -1; }, false); break; }
    case ERASE_BEG: if constexpr (!SO) { call([&] { x.erase_begin(a); }); mm.erase(0, a); budget(4 * a + 6); copies(0); no_alloc(); if (std::is_scalar<T>::value) no_throw_points(); kept(i, [&](long k) { return k - (long)a; }, false); } break;
    case ERASE_END: if constexpr (!SO) { call([&] { x.erase_end(a); }); mm.erase(n0 - a, n0); budget(4 * a + 6); copies(0); no_alloc(); kept(i, [&](long k) { return k < N0 - (long)a ? k : -1; }, false); } break;
    case CLEAR: call([&] { x.clear(); }); mm.v.clear(); budget(2); copies(0); no_alloc(); if (!SO) no_throw_points(); kept(i, [&](long) { return -1L; }, true); break;
    // ------------------------------------------------------------ size and capacity
    case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: if constexpr (COPY) {
        const bool d = o.code == RESIZE_D || o.code == RRESIZE_D, r = o.code == RRESIZE || o.code == RRESIZE_D; int v = d ? 0 : val();
        if (d) { if (r) call([&] { x.rresize(a); }); else call([&] { x.resize(a); }); }
        else { T item = mkv<T>(v); if (r) call([&] { x.rresize(a, item); }); else call([&] { x.resize(a, item); }); }
        bool grew = a > mm.cap, bigger = a > n0; mm.resize(a, nv(v), r);
        budget(5 * std::max(a, n0) + 8); copies(bigger ? a - n0 + 2 : 0); if (!grew) no_alloc();
        long D = (long)a - N0;
        if (r) kept(i, [&](long k) { return grew ? -1 : bigger ? k + D : k + D; }, true);
        else kept(i, [&](long k) { return grew ? -1 : bigger ? k : k < (long)a ? k : -1; }, true);
        } break;
    case SETCAP: case RSETCAP: {
        const bool r = o.code == RSETCAP; bool same = mm.cap == a;
        if (r) call([&] { x.rset_capacity(mkcap(a, mn)); }); else call([&] { x.set_capacity(mkcap(a, mn)); });
        mm.set_cap(a, mn, r);
        budget(4 * std::min(n0, a) + 6); copies(0); if (!SO) no_moves(); if (same) { no_alloc(); kept(i, [&](long k) { return k; }, true); } else kept(i, [&](long) { return -1L; }, true);
        break; }
    // ------------------------------------------------------------ assignment
    case ASG_N: if constexpr (COPY) {
        int v = val();
        if (kind == 1) { if constexpr (INTS) { int n = (int)a; call([&] { x.assign(n, v); }); } }
        else { T item = mkv<T>(v); call([&] { x.assign(a, item); }); }
        mm.v.assign(a, nv(v)); mm.cap = a; mm.mincap = 0; budget(4 * a + 8); mem_exact(a); kept(i, [&](long) { return -1L; }, true);
        } break;
    case ASG_CN: if constexpr (COPY) {
        int v = val();
        if (kind == 1) { if constexpr (INTS) { int n = (int)b; call([&] { x.assign(mkcap(a, mn), n, v); }); } }
        else { T item = mkv<T>(v); call([&] { x.assign(mkcap(a, mn), b, item); }); }
        mm.v.assign(b, nv(v)); mm.cap = a; mm.mincap = mn; budget(4 * b + 8); mem_exact(std::max(b, mn)); kept(i, [&](long) { return -1L; }, true);
        } break;
    case ASG_R: {
        std::vector<int> xs = seq(b);
        with_range<T>(kind, xs, [&](auto f, auto l) { call([&] { x.assign(f, l); }); });
        mm.v = norm(xs); mm.cap = b; mm.mincap = 0; budget(6 * b + 8); mem_exact(b); if (kind == RK_MOVE || kind == RK_INPUT_RV) copies(0); untouched(kind, 0, 0); kept(i, [&](long) { return -1L; }, true);
        break; }
    case ASG_CR: {
        std::vector<int> xs = seq(b);
        with_range<T>(kind, xs, [&](auto f, auto l) { call([&] { x.assign(mkcap(a, mn), f, l); }); });
        xs = norm(xs); size_t k = std::min(a, b); mm.v.assign(xs.end() - (long)k, xs.end()); mm.cap = a; mm.mincap = mn; budget(6 * b + 8); mem_exact(std::max(k, mn)); if (kind == RK_MOVE || kind == RK_INPUT_RV) copies(0);
        untouched(kind, 0, b - k);
        kept(i, [&](long) { return -1L; }, true);
        break; }
    case COPYA: if constexpr (COPY) {
        C* rr = 0; const C& src = *c[j]; call([&] { rr = &(x = src); }); if (rr != &x) viol(tag, "assign-result", "assignment does not return the object");
        mm.v = m[j].v; mm.cap = m[j].cap; mm.mincap = m[j].mincap; budget(5 * mm.v.size() + 8); mem_exact(mm.v.size());
        if (x.size() != src.size() || !(x == src)) viol(tag, "copy-equal", "a copy does not compare equal to its source");
        kept(i, [&](long) { return -1L; }, true);
        } break;
    case SELFA: if constexpr (COPY) { C& same = x; C* volatile ps = &same; call([&] { x = *(const C*)ps; }); if (SO) cap_on = false; kept(i, [&](long k) { return k; }, true); } break;
    case MOVEA: {
        std::vector<const T*> ps; for (size_t k = 0; k < c[j]->size(); ++k) ps.push_back(&(*c[j])[k]);
        int idj = alloc_id(*c[j]); uint64_t heldj = MON ? block_elems(j) : 0;
        C* rr = 0; call([&] { rr = &(x = std::move(*c[j])); }); if (rr != &x) viol(tag, "assign-result", "assignment does not return the object");
        mm.v = m[j].v; mm.cap = m[j].cap; mm.mincap = m[j].mincap; no_throw_points(); copies(0); if (MON && env().delta.alloc) viol("alloc", "unexpected-allocation", "move assignment allocated");
        if (ET<T>::tracked && work(env().delta)) viol("move", "element-operations", "move assignment performed %llu element operations", (unsigned long long)work(env().delta));
        for (size_t k = 0; k < ps.size() && k < x.size(); ++k) if (&x[k] != ps[k]) { viol("move", "not-transferred", "move assignment did not take over the elements"); break; }
        if (MON && alloc_id(x) != idj) viol("alloc", "allocator-follows", "after a move the storage of allocator %d belongs to a container using allocator %d", idj, alloc_id(x));
        if (MON && SO && block_elems_cur() != heldj) viol("mem-policy", "move", "move changed the amount of memory from %llu to %zu", (unsigned long long)heldj, block_elems_cur());
        moved_from(j, tag); break; }
    case SWAP_M: case SWAP_F: {
        C& y = *c[j];
        std::vector<const T*> px, py; for (size_t k = 0; k < x.size(); ++k) px.push_back(&x[k]); for (size_t k = 0; k < y.size(); ++k) py.push_back(&y[k]);
        int ix = alloc_id(x), iy = alloc_id(y); size_t hx = MON ? block_elems(i) : 0, hy = MON ? block_elems(j) : 0;
        if (o.code == SWAP_M) call([&] { x.swap(y); }); else { using std::swap; call([&] { swap(x, y); }); }
        std::swap(m[i], m[j]); no_throw_points(); if (MON && env().delta.alloc) viol("alloc", "unexpected-allocation", "swap allocated");
        if (ET<T>::tracked && work(env().delta)) viol("move", "element-operations", "swap performed %llu element operations", (unsigned long long)work(env().delta));
        bool ok = x.size() == py.size() && y.size() == px.size();
        for (size_t k = 0; ok && k < px.size(); ++k) ok = &y[k] == px[k];
        for (size_t k = 0; ok && k < py.size(); ++k) ok = &x[k] == py[k];
        if (!ok) viol("stable", "swap", "after swap references no longer follow the elements");
        if (MON && (alloc_id(x) != iy || alloc_id(y) != ix)) viol("alloc", "allocator-follows", "swap did not exchange the allocators with the storage");
        if (MON && SO && !case_failed() && (block_elems(i) != hy || block_elems(j) != hx) && ix != iy) viol("mem-policy", "swap", "swap did not exchange the allocated memory");
        if (!case_failed()) check(j, tag);
        break; }
    case SELFSWAP: call([&] { x.swap(x); }); break;
    // ------------------------------------------------------------ construction (replaces slot i)
    case K_DEF: case K_CAP: case K_N: case K_CN: case K_R: case K_CR: case K_COPY: case K_MOVE: {
        drop(i); cur = 0; A al = alloc(); C* p = raw(); bool built = false;
        struct Free { C* p; bool* ok; ~Free() { if (!*ok) ::operator delete(p); } } fr = {p, &built};
        Model nm; nm.so = SO; int aid = MON ? next_id - 1 : 0; size_t exact = 0; bool moved = false;
        switch (o.code) {
        case K_DEF: call([&] { new (p) C(al); }); no_throw_points(); budget0(2); break;
        case K_CAP: call([&] { new (p) C(mkcap(a, mn), al); }); nm.cap = a; nm.mincap = mn; exact = mn; budget0(2); break;
        case K_N: if constexpr (COPY) { int v = val();
            if (kind == 1) { if constexpr (INTS) { int n = (int)a; call([&] { k_int(p, n, v, al); }); } else call([&] { T item = mkv<T>(v); k_n(p, a, item, al); }); }
            else { T item = mkv<T>(v); call([&] { k_n(p, a, item, al); }); }
            nm.v.assign(a, nv(v)); nm.cap = a; exact = a; budget0(3 * a + 8); } break;
        case K_CN: if constexpr (COPY) { int v = val();
            if (kind == 1) { if constexpr (INTS) { int n = (int)b; call([&] { new (p) C(mkcap(a, mn), n, v, al); }); } else { T item = mkv<T>(v); call([&] { new (p) C(mkcap(a, mn), b, item, al); }); } }
            else { T item = mkv<T>(v); call([&] { new (p) C(mkcap(a, mn), b, item, al); }); }
            nm.v.assign(b, nv(v)); nm.cap = a; nm.mincap = mn; exact = std::max(b, mn); budget0(3 * b + 8); } break;
        case K_R: { std::vector<int> xs = seq(b); with_range<T>(kind, xs, [&](auto f, auto l) { call([&] { new (p) C(f, l, al); }); });
            nm.v = norm(xs); nm.cap = b; exact = b; budget0(6 * b + 8); if (kind == RK_MOVE || kind == RK_INPUT_RV) copies(0); untouched(kind, 0, 0); } break;
        case K_CR: { std::vector<int> xs = seq(b); with_range<T>(kind, xs, [&](auto f, auto l) { call([&] { new (p) C(mkcap(a, mn), f, l, al); }); });
            xs = norm(xs); size_t k = std::min(a, b); nm.v.assign(xs.end() - (long)k, xs.end()); nm.cap = a; nm.mincap = mn; exact = std::max(k, mn); budget0(6 * b + 8);
            if (kind == RK_MOVE || kind == RK_INPUT_RV) copies(0);
            untouched(kind, 0, b - k); } break;
        case K_COPY: if constexpr (COPY) { const C& src = *c[j]; call([&] { new (p) C(src); }); aid = alloc_id(src); nm.v = m[j].v; nm.cap = m[j].cap; nm.mincap = m[j].mincap; exact = nm.v.size(); budget0(3 * nm.v.size() + 8); } break;
        case K_MOVE: {
            std::vector<const T*> ps; for (size_t k = 0; k < c[j]->size(); ++k) ps.push_back(&(*c[j])[k]);
            aid = alloc_id(*c[j]); exact = MON ? block_elems(j) : 0;
            call([&] { new (p) C(std::move(*c[j])); }); nm.v = m[j].v; nm.cap = m[j].cap; nm.mincap = m[j].mincap; no_throw_points(); moved = true;
            if (ET<T>::tracked && work(env().delta)) viol("move", "element-operations", "move construction performed %llu element operations", (unsigned long long)work(env().delta));
            if (MON && env().delta.alloc) viol("alloc", "unexpected-allocation", "move construction allocated");
            for (size_t k = 0; k < ps.size() && k < p->size(); ++k) if (&(*p)[k] != ps[k]) { viol("move", "not-transferred", "move construction did not take over the elements"); break; }
            break; }
        default: break; }
        built = true; c[i] = p; m[i] = nm; cur = p; held0 = 0; min_ok0 = true;
        if (MON && alloc_id(*p) != aid) viol("alloc", "allocator-kept", "container uses allocator %d, was given %d", alloc_id(*p), aid);
        if (o.code == K_COPY && MON && SO && !case_failed()) { const Block* bl = p->size() ? block_of(&(*p)[0]) : 0; if (p->size() && (!bl || bl->n != exact)) viol("mem-policy", "documented-amount", "copy holds memory for %zu elements, documented amount %zu", bl ? bl->n : 0, exact); }
        else mem_exact(exact);
        if (o.code == K_COPY && !case_failed() && !(*p == *c[j])) viol(tag, "copy-equal", "a copy does not compare equal to its source");
        if (moved) moved_from(j, tag);
        else if (o.code == K_COPY && !case_failed()) { if (check(j, tag)) build(j, 2 + (size_t)val() % 4, 0, 1, 1, 1); }
        break; }
    // ------------------------------------------------------------ layout
    case LIN: {
        bool was = x.is_linearized() || x.empty(); const T* f0 = n0 ? &x[0] : 0; typename C::pointer q; call([&] { q = x.linearize(); });
        if (MON && env().delta.alloc) viol("lin", "allocates", "linearize() allocated memory");
        if (was && n0 && &x[0] != f0) viol("lin", "moved", "linearize() moved the elements although they were contiguous");
        if (was && ET<T>::tracked && work(env().delta)) viol("lin", "moved", "linearize() of contiguous elements performed %llu element operations", (unsigned long long)work(env().delta));
        if (n0 == 0 ? boost::to_address(q) != 0 : boost::to_address(q) != &x[0]) viol("lin", "linearize-result", "linearize() does not return the address of element 0 (0 when empty)");
        if (!x.is_linearized()) viol("lin", "linearize-post", "is_linearized() is false right after linearize() (size %zu)", n0);
        for (size_t k = 1; k < n0; ++k) if (&x[k] != &x[0] + k) { viol("lin", "not-contiguous", "after linearize() element %zu is not at front+%zu", k, k); break; }
        if (n0 && (x.array_one().second != n0 || x.array_two().second != 0)) viol("lin", "arrays-after-linearize", "array_one holds %zu of %zu elements after linearize()", (size_t)x.array_one().second, n0);
        budget(was ? 0 : 8 * n0 + 10); copies(0); no_alloc(); stats().lin_moves += work(env().delta);
        if (was) { no_throw_points(); kept(i, [&](long k) { return k; }, true, true); } else kept(i, [&](long) { return -1L; }, true, true);
        break; }
    case ROT: {
        CIt nb = pos(a); call([&] { x.rotate(nb); });
        if (MON && !SO && env().delta.alloc) viol("lin", "allocates", "rotate() allocated memory"); std::rotate(mm.v.begin(), mm.v.begin() + (long)a, mm.v.end());
        size_t nn = a, mmn = n0 - a; budget(full0 && !SO ? 0 : 6 * std::min(nn, mmn) + 8); copies(0); no_alloc(); if ((full0 && !SO) || a == 0) no_throw_points();
        if (SO && !full0) drop_captures(); // whether "full" refers to the internal buffer there is not said
        kept(i, [&](long k) { if (full0) return (k - (long)a + N0) % N0; if (mmn < nn) return k >= (long)a ? -1L : k + (long)mmn; return k < (long)a ? -1L : k - (long)a; }, true, true);
        break; }
    // ------------------------------------------------------------ writes through every access path
    case W_IDX: { int v = val(); ET<T>::set(x[a], v); mm.v[a] = nv(v); break; }
    case W_AT: { int v = val(); ET<T>::set(x.at(a), v); mm.v[a] = nv(v); break; }
    case W_IT: { int v = val(); ET<T>::set(*pos(a), v); mm.v[a] = nv(v); break; }
    case W_FRONT: { int v = val(); ET<T>::set(x.front(), v); mm.v.front() = nv(v); break; }
    case W_BACK: { int v = val(); ET<T>::set(x.back(), v); mm.v.back() = nv(v); break; }
    case W_RIT: { int v = val(); ET<T>::set(*(x.rbegin() + (long)a), v); mm.v[n0 - 1 - a] = nv(v); break; }
    case W_ARR: { int v = val(); std::pair<typename C::pointer, typename C::size_type> one = x.array_one(), two = x.array_two();
        T* q = a < one.second ? boost::to_address(one.first) + a : boost::to_address(two.first) + (a - one.second); if (a - (a < one.second ? 0 : one.second) < (a < one.second ? one.second : two.second)) { ET<T>::set(*q, v); mm.v[a] = nv(v); } break; }
    case OBS: break;
    default: break;
    }
#if BOOST_CB_ENABLE_DEBUG
    if (two || ctor) {
        for (size_t k = 0; k < cap_.size() && !case_failed(); ++k) dbg_iter(cap_[k].it, false, "element", k);
        if (!case_failed()) dbg_end(false);
        if (two) { for (size_t k = 0; k < old_j.size() && !case_failed(); ++k) dbg_iter(old_j[k].it, false, "element of the other container", k); old_end = end_j; if (!case_failed()) dbg_end(false); }
    }
    if (!case_failed()) { dbg_fill(i); if (two && i != j) dbg_fill(j); dbg_clean(); }
#endif
    cap_on = false; cap_.clear();
    finish(i, o);
    return !case_failed();
}

} // namespace mon

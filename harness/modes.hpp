// Workload generators: exhaustive state x operation sweeps, operation pairs, long random histories,
// fault-point enumeration, and replay of a recorded case.
#pragma once
#include "core.hpp"
#include <cmath>

namespace mon {

struct State { size_t cap, mn, init, off, n; };
inline std::string st_str(const State& s) { char b[120]; std::snprintf(b, sizeof b, "%zu,%zu,%zu,%zu,%zu", s.cap, s.mn, s.init, s.off, s.n); return b; }

template <class C> std::vector<State> states(size_t maxcap) {
    std::vector<State> r;
    for (size_t cap = 0; cap <= maxcap; ++cap)
        for (size_t n = 0; n <= cap; ++n) {
            if (!is_so<C>::value) { for (size_t off = 0; off < std::max<size_t>(cap, 1); ++off) { State s = {cap, 0, 0, off, n}; r.push_back(s); } }
            else
                for (size_t mn = 0; mn <= cap; mn += (cap > 3 ? cap / 2 : 1))
                    for (size_t init = 0; init <= cap; ++init) {
                        if (init > 1 && init < n && init + 1 != n && init * 2 != n) continue;
                        for (size_t off = 0; off < std::max<size_t>(std::min<size_t>(init, 3), 2); ++off) { State s = {cap, mn, init, off, n}; r.push_back(s); }
                    }
        }
    return r;
}
// larger states around the wrap, capacities that are typical boundaries
template <class C> std::vector<State> big_states() {
    std::vector<State> r;
    size_t caps[] = {8, 16, 17, 33};
    for (size_t cap : caps) {
        size_t ns[] = {0, 1, cap / 3, cap / 2, cap - 1, cap};
        size_t offs[] = {0, 1, cap / 2, cap - 1};
        for (size_t n : ns) for (size_t off : offs) {
            State s = {cap, is_so<C>::value ? (n % 3 == 0 ? 0 : cap / 4) : 0, is_so<C>::value ? (off * 7 + n) % (cap + 1) : 0, off, n}; r.push_back(s);
        }
    }
    return r;
}

template <class C> void gen_ops(std::vector<Op>& out, unsigned groups, const State& s, bool reduced) {
    typedef typename C::value_type T;
    const bool SO = is_so<C>::value;
    const size_t n = s.n, cap = s.cap;
    auto add = [&](int code, size_t a = 0, size_t b = 0, int c = 0) { if ((group_of(code) & groups) && op_ok<C>(code)) { Op o = {code, a, b, c}; out.push_back(o); } };
    std::vector<size_t> P, E;                        // positions incl. end / elements only
    for (size_t k = 0; k <= n; ++k) if (n <= 9 || k < 3 || k + 3 > n || k == n / 2) { P.push_back(k); if (k < n) E.push_back(k); }
    std::vector<size_t> CN;                          // counts
    for (size_t k = 0; k <= cap + 2; ++k) if (cap <= 7 || k < 3 || k + 3 > cap || k == cap / 2 || k == cap - n || k == cap - n + 1) CN.push_back(k);
    if (reduced && CN.size() > 6) { std::vector<size_t> q; for (size_t k = 0; k < CN.size(); k += 2) q.push_back(CN[k]); CN = q; }
    add(PB_C); add(PB_M); add(PB_D); add(PF_C); add(PF_M); add(PF_D);
    if (n) { add(POP_B); add(POP_F); }
    const bool ints = std::is_convertible<int, T>::value;
    for (size_t p : P) {
        add(INS_C, p); add(INS_M, p); add(INS_D, p); add(RINS_C, p); add(RINS_M, p); add(RINS_D, p);
        for (size_t k : CN) {
            add(INS_N, p, k); add(RINS_N, p, k);
            if (ints && !reduced && k <= cap + 1) { add(INS_N, p, k, 1); add(RINS_N, p, k, 2); }
            for (int kd = 0; kd < RK_COUNT; ++kd) if (kind_ok<T>(kd)) {
                if (reduced && kd > 1 && kd != RK_MOVE && kd != RK_INPUT_RV) continue;
                add(INS_R, p, k, kd); add(RINS_R, p, k, kd);
            }
        }
        if (!SO || cap < 40) for (int h = 0; h < 5; ++h) if (!reduced || h == 0) { add(INS_N, p, HUGE_N[h]); add(RINS_N, p, HUGE_N[h]); }
    }
    for (size_t p : E) {
        add(ERASE1, p); add(RERASE1, p);
        add(W_IDX, p); add(W_AT, p); add(W_IT, p); add(W_RIT, p); add(W_ARR, p); add(ROT, p);
    }
    for (size_t p : P) for (size_t q : P) if (p <= q) { add(ERASER, p, q); add(RERASER, p, q); }
    if (!SO) for (size_t p : P) { add(ERASE_BEG, p); add(ERASE_END, p); }
    add(CLEAR);
    for (size_t k : CN) { add(RESIZE, k); add(RRESIZE, k); if (!reduced) { add(RESIZE_D, k); add(RRESIZE_D, k); } }
    if (!reduced) { add(RESIZE, cap * 2 + 3); add(RRESIZE, cap * 2 + 3); }
    for (size_t k : CN) {
        std::vector<size_t> mins(1, 0); if (SO) { if (k) mins.push_back(k); if (k > 1) mins.push_back(k / 2); if (s.mn && s.mn < k) mins.push_back(s.mn); }
        for (size_t mn : mins) {
            int e = (int)(mn << 5);
            add(SETCAP, k, 0, e); add(RSETCAP, k, 0, e); add(K_CAP, k, 0, e);
            for (size_t b = 0; b <= k + 2; ++b) {
                if (k > 6 && b > 2 && b + 2 < k && b != k / 2) continue;
                if (b <= k) { add(ASG_CN, k, b, e); add(K_CN, k, b, e); if (!reduced && ints) { add(ASG_CN, k, b, e | 1); add(K_CN, k, b, e | 1); } }
                for (int kd = 0; kd < RK_COUNT; ++kd) if (kind_ok<T>(kd)) {
                    if (reduced && kd > 1 && kd != RK_MOVE && kd != RK_INPUT_RV) continue;
                    if (mn && mn != k && kd > 2) continue;
                    add(ASG_CR, k, b, e | kd); add(K_CR, k, b, e | kd);
                }
            }
        }
        add(ASG_N, k); add(K_N, k);
        if (ints && !reduced) { add(ASG_N, k, 0, 1); add(K_N, k, 0, 1); }
        for (int kd = 0; kd < RK_COUNT; ++kd) if (kind_ok<T>(kd)) { if (reduced && kd > 1 && kd != RK_MOVE && kd != RK_INPUT_RV) continue; add(ASG_R, 0, k, kd); add(K_R, 0, k, kd); }
    }
    add(K_DEF); add(SELFA); add(SELFSWAP); add(COPYA); add(MOVEA); add(SWAP_M); add(SWAP_F); add(K_COPY); add(K_MOVE);
    add(LIN); add(OBS);
    if (n) { add(W_FRONT); add(W_BACK); }
}
inline bool two_slot(int c) { return c == COPYA || c == MOVEA || c == SWAP_M || c == SWAP_F || c == K_COPY || c == K_MOVE; }

template <class C> struct Runner {
    typedef typename C::value_type T;
    typedef World<C> W;
    static uint64_t hash_case(const State& s, const Op& o) { uint64_t h = 1469598103934665603ull; size_t v[] = {s.cap, s.mn, s.init, s.off, s.n, (size_t)o.code, o.a, o.b, (size_t)o.c};
        for (size_t x : v) { h ^= x + 0x9e3779b97f4a7c15ull; h *= 1099511628211ull; h ^= h >> 29; } return h; }

    static void end_case(bool destroyed_all) {
        if (case_failed()) { reset_world(); }
        else if (destroyed_all) {
            if (ET<T>::tracked && live().size()) { viol("lifetime", "leak", "%zu elements live after every container was destroyed", live().size()); }
            if (blocks().size()) viol("alloc", "leak", "%zu blocks still allocated after every container was destroyed", blocks().size());
            flush_quarantine();
            if (case_failed()) reset_world();
        }
        case_failed() = false; after_fault_tag() = 0; hook_base() = cnt().hook_construct - cnt().hook_destroy;
    }
    static std::string text(const State& s, const State* s2, const std::vector<Op>& ops, long k, unsigned mask) {
        std::string r = "B:" + st_str(s); if (s2) r += ";S:" + st_str(*s2);
        if (mask) r += ";F:" + std::to_string(k) + "," + std::to_string(mask);
        for (const Op& o : ops) r += ";O:" + op_str(o);
        return r;
    }
    static void human(const State& s, const State* s2, const Op& o) {
        char b[400]; std::snprintf(b, sizeof b, "state{cap=%zu min=%zu init=%zu offset=%zu size=%zu}%s %s", s.cap, s.mn, s.init, s.off, s.n,
            s2 ? (" other{" + st_str(*s2) + "}").c_str() : "", op_human(o).c_str());
        op_text() = b;
    }
    // a short probe that any consistent container survives
    static void aftershock(W& w, const char* tag) {
        if (case_failed()) return;
        Op ops[] = {{PB_M, 0, 0, 0}, {PF_M, 0, 0, 0}, {POP_B, 0, 0, 0}, {INS_M, 0, 0, 0}, {PF_M, 0, 0, 0}, {POP_F, 0, 0, 0}};
        for (Op o : ops) {
            if (case_failed()) return;
            if ((o.code == POP_B || o.code == POP_F) && w.m[0].v.empty()) continue;
            if (o.code == INS_M) o.a = w.m[0].v.size() / 2;
            w.apply(0, 1, o); if (!case_failed()) w.check(0, tag, false);
        }
        if (!case_failed()) w.check(0, tag, true);
        w.check_world(OBS);
    }
    static bool length_expected(const W& w, const Op& o) {
        size_t mx = max_elems(); const bool SO = is_so<C>::value;
        switch (o.code) {
        case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: return o.a > mx;
        case SETCAP: case RSETCAP: case K_CAP: return !SO && o.a > mx && o.a != w.m[0].cap;
        case ASG_N: case K_N: return o.a > mx;
        case ASG_CN: case K_CN: return !SO && o.a > mx;
        case ASG_CR: case K_CR: return !SO && o.a > mx;
        case ASG_R: case K_R: return o.b > mx;
        default: return false;
        }
    }
    // one ordinary case
    static void one(const State& s, const State* s2, const std::vector<Op>& ops, bool shock) {
        case_spec() = text(s, s2, ops, 0, 0); case_failed() = false;
        ++stats().cases;
        {
            W w; env().fault_on = false;
            op_text() = "building the initial state"; call_ops() = 0; progress() = progress() + 1;
            w.build(0, s.cap, s.mn, s.init, s.off, s.n);
            if (s2) w.build(1, s2->cap, s2->mn, s2->init, s2->off, s2->n);
            for (size_t q = 0; q < ops.size() && !case_failed(); ++q) {
                const Op& o = ops[q];
                if (s2 || q == 0) human(s, s2, o); else op_text() = op_human(o);
                if (q + 1 == ops.size()) sample_case();
                if (stats().distinct.size() < 4000000) stats().distinct.insert(hash_case(s, o));
                bool lenx = length_expected(w, o); std::vector<int> before = w.m[0].v; size_t capb = w.m[0].cap, minb = w.m[0].mincap;
                if (!two_slot(o.code) || o.code == COPYA) w.capture(0);
                int how = 0;
                try { w.apply(0, 1, o); } catch (const std::length_error&) { how = 1; ++stats().len_errors; } catch (const std::exception& e) { how = 2; } catch (...) { how = 3; }
                if (case_failed()) break;
                if (how && !lenx) { viol("throws", "unexpected-exception", "%s threw %s", op_human(o).c_str(), how == 1 ? "std::length_error" : "an unexpected exception"); break; }
                if (!how && lenx) { viol("alloc", "no-length-error", "%s above max_size() %zu did not throw std::length_error", op_human(o).c_str(), max_elems()); break; }
                if (how == 1) {
                    if (w.c[0]) { w.m[0].v = before; w.m[0].cap = (size_t)w.c[0]->capacity(); w.m[0].mincap = W::min_of(*w.c[0]);
                        if (o.code == SETCAP || o.code == RSETCAP) { w.m[0].cap = capb; w.m[0].mincap = minb; }
                        w.check(0, "strong"); }
                    if (case_failed()) break;
                    w.check_world(o.code); if (!w.c[0]) { break; } continue;
                }
                if (!w.check(0, state_tag(o.code))) break;
                if (s2 && w.c[1]) w.check(1, state_tag(o.code));
                w.check_world(o.code);
            }
            if (shock && !case_failed() && w.c[0]) { op_text() += " then push/pop/insert"; aftershock(w, ops.empty() ? "access" : state_tag(ops.back().code)); }
            if (!case_failed()) w.clear_all();
        }
        end_case(true);
    }
    static void second_states(std::vector<State>& v, const State& s) {
        size_t c = s.cap; bool SO = is_so<C>::value;
        State l[] = {{0, 0, 0, 0, 0}, {1, 0, SO ? (size_t)1 : 0, 0, 1}, {c, 0, 0, c > 1 ? (size_t)1 : 0, c}, {c + 2, SO ? (size_t)1 : 0, 0, 1, c / 2 + 1}, {c, 0, SO ? c / 2 : 0, c ? c - 1 : 0, c / 2}, {c + 3, 0, 0, 2, 0}};
        v.assign(l, l + 6);
    }
    static void exh(unsigned groups, size_t maxcap, bool big, unsigned shard, unsigned nshard, bool shock, bool reduced, unsigned every, uint64_t seed) {
        std::vector<State> st = states<C>(maxcap); const size_t small = st.size(); if (big) { std::vector<State> b = big_states<C>(); st.insert(st.end(), b.begin(), b.end()); }
        unsigned long idx = 0; Rng pick_rng(seed * 211 + 3);       // the larger states may be sampled
        for (size_t si = 0; si < st.size(); ++si) {
            const State& s = st[si]; ++stats().states;
            std::vector<Op> ops; gen_ops<C>(ops, groups, s, reduced || s.cap > 7);
            for (const Op& o : ops) {
                if (si >= small && every > 1 && pick_rng.below(every)) continue;
                if (idx++ % nshard != shard) continue;
                std::vector<Op> one_op(1, o);
                if (two_slot(o.code)) { std::vector<State> v; second_states(v, s); for (const State& s2 : v) one(s, &s2, one_op, shock); }
                else one(s, 0, one_op, shock);
            }
        }
    }
    static void pairs(unsigned groups, unsigned groups2, size_t maxcap, unsigned shard, unsigned nshard, unsigned every, uint64_t seed, bool big) {
        std::vector<State> st = states<C>(maxcap); if (big) { std::vector<State> b = big_states<C>(); for (size_t k = 0; k < b.size(); ++k) if (b[k].cap <= 17) st.push_back(b[k]); }
        Rng pick_rng(seed * 77 + 5); unsigned long idx = 0;
        for (const State& s : st) {
            std::vector<Op> ops; gen_ops<C>(ops, groups, s, true);
            for (const Op& o : ops) {
                if (two_slot(o.code) || is_huge(o.a) || is_huge(o.b)) continue;
                Model m; m.cap = s.cap; m.v.assign(s.n, 0);        // size after o, to generate valid second operations
                size_t n2 = s.n, cap2 = s.cap; next_shape(o, n2, cap2, s);
                State s2 = {cap2, 0, 0, 0, n2}; std::vector<Op> ops2; gen_ops<C>(ops2, groups2, s2, true);
                for (const Op& p : ops2) { if (two_slot(p.code)) continue; if (every > 1 && pick_rng.below(every)) continue; if (idx++ % nshard != shard) continue; std::vector<Op> v; v.push_back(o); v.push_back(p); one(s, 0, v, false); }
            }
        }
    }
    static void next_shape(const Op& o, size_t& n, size_t& cap, const State& s) {
        size_t r = cap - n;
        switch (o.code) {
        case PB_C: case PB_M: case PB_D: case PF_C: case PF_M: case PF_D: if (r) ++n; break;
        case POP_B: case POP_F: case ERASE1: case RERASE1: --n; break;
        case INS_C: case INS_M: case INS_D: case RINS_C: case RINS_M: case RINS_D: if (r) ++n; break;
        case INS_N: case INS_R: case RINS_N: case RINS_R: n += std::min(o.b, r); break;
        case ERASER: case RERASER: n -= o.b - o.a; break;
        case ERASE_BEG: case ERASE_END: n -= o.a; break;
        case CLEAR: n = 0; break;
        case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: n = o.a; if (n > cap) cap = n; break;
        case SETCAP: case RSETCAP: cap = o.a; n = std::min(n, cap); break;
        case ASG_N: case K_N: n = cap = o.a; break;
        case ASG_R: case K_R: n = cap = o.b; break;
        case ASG_CN: case K_CN: case ASG_CR: case K_CR: cap = o.a; n = std::min(o.a, o.b); break;
        case K_DEF: n = cap = 0; break;
        case K_CAP: cap = o.a; n = 0; break;
        default: break;
        }
        (void)s;
    }

    // ------------------------------------------------------------------ random histories over three containers
    struct Profile { size_t caps[24]; int ncaps; size_t maxn; unsigned groups; bool faults; };
    static size_t pick(Rng& r, size_t hi) {            // small-biased value in [0, hi]
        if (hi == 0) return 0;
        switch (r.below(6)) { case 0: return 0; case 1: return hi; case 2: return r.below(std::min<size_t>(hi, 3) + 1); case 3: return hi - r.below(std::min<size_t>(hi, 3) + 1); default: return r.below(hi + 1); }
    }
    // a value in [0, hi] near one of the places where narrow counters, offsets and thresholds change behaviour
    static size_t edge(Rng& r, size_t hi) {
        static const size_t e[] = {16, 32, 64, 100, 127, 128, 200, 255, 256, 500, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 10000, 16383, 16384, 32767, 32768, 65535, 65536};
        if (hi == 0) return 0;
        switch (r.below(8)) {
        case 0: return hi; case 1: return hi / 2; case 2: return hi - r.below(std::min<size_t>(hi, 3) + 1); case 3: return r.below(std::min<size_t>(hi, 4) + 1);
        case 4: case 5: { size_t v = e[r.below(sizeof e / sizeof *e)] + r.below(3); return v <= hi ? v : r.below(hi + 1); }
        default: return r.below(hi + 1); }
    }
    static bool random_op(Rng& r, W& w, int i, unsigned groups, size_t capmax, Op& o, bool wide = false) {
        const Model& m = w.m[i]; size_t n = m.v.size(), cap = m.cap; const bool SO = is_so<C>::value;
        for (int tries = 0; tries < 60; ++tries) {
            int code = (int)r.below(CODE_COUNT);
            if (!(group_of(code) & groups) || !op_ok<C>(code)) continue;
            // operations that rebuild the container would make histories shallow
            if (!wide && (group_of(code) & (G_CTOR | G_ASSIGN)) && !r.chance(12)) continue;
            if (!wide && (code == CLEAR || code == SETCAP || code == RSETCAP) && !r.chance(35)) continue;
            o.code = code; o.a = o.b = 0; o.c = 0;
            int kind = 0; for (int q = 0; q < 50; ++q) { kind = (int)r.below(RK_COUNT); if (kind_ok<T>(kind)) break; }
            if (!kind_ok<T>(kind)) continue;
            size_t newcap = r.chance(50) ? pick(r, capmax) : (cap + r.below(5)); if (newcap > capmax) newcap = capmax;
            int mn = SO ? (int)(r.chance(40) ? std::min<size_t>(pick(r, newcap), 60000) : 0) << 5 : 0;
            size_t lim = std::min<size_t>(cap + 3, 2000);
            if (wide) {
                newcap = r.chance(30) ? cap + r.below(5) - std::min<size_t>(cap, 2) : edge(r, capmax); if (newcap > capmax) newcap = capmax;
                mn = SO && r.chance(40) ? (int)std::min<size_t>(edge(r, newcap), 60000) << 5 : 0; if ((size_t)(mn >> 5) > newcap) mn = 0;
                const size_t to = cap + 3;
                switch (code) {
                case POP_B: case POP_F: case W_FRONT: case W_BACK: if (!n) continue; break;
                case INS_C: case INS_M: case INS_D: case RINS_C: case RINS_M: case RINS_D: o.a = edge(r, n); break;
                case INS_N: case RINS_N: o.a = edge(r, n); o.b = r.chance(40) ? cap - n + r.below(3) : edge(r, to); if (std::is_convertible<int, T>::value && r.chance(20)) o.c = 1; break;
                case INS_R: case RINS_R: o.a = edge(r, n); o.b = r.chance(40) ? cap - n + r.below(3) : edge(r, to); o.c = kind;
                    if (single_pass(kind) && !SO && (code == INS_R ? n - o.a : o.a + o.b) > 2000000 / (o.b + 1)) o.b = 20;   // documented as quadratic in effect
                    break;
                case ERASE1: case RERASE1: case W_IDX: case W_AT: case W_IT: case W_RIT: case W_ARR: case ROT: if (!n) continue; o.a = edge(r, n - 1); break;
                case ERASER: case RERASER: o.a = edge(r, n); o.b = o.a + edge(r, n - o.a); break;
                case ERASE_BEG: case ERASE_END: if (SO) continue; o.a = edge(r, n); break;
                case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: o.a = edge(r, r.chance(30) ? capmax : cap); break;
                case SETCAP: case RSETCAP: case K_CAP: o.a = newcap; o.c = mn; break;
                case ASG_N: case K_N: o.a = newcap; break;
                case ASG_R: case K_R: o.b = newcap; o.c = kind; break;
                case ASG_CN: case K_CN: o.a = newcap; o.b = edge(r, newcap); o.c = mn; break;
                case ASG_CR: case K_CR: o.a = newcap; o.b = edge(r, newcap + 3); o.c = mn | kind; break;
                default: break;
                }
                return true;
            }
            switch (code) {
            case POP_B: case POP_F: case W_FRONT: case W_BACK: if (!n) continue; break;
            case INS_C: case INS_M: case INS_D: case RINS_C: case RINS_M: case RINS_D: o.a = pick(r, n); break;
            case INS_N: case RINS_N: o.a = pick(r, n); o.b = r.chance(70) ? r.below(4) : pick(r, lim); if (r.chance(4) && cap < 100000) o.b = HUGE_N[r.below(5)]; if (std::is_convertible<int, T>::value && !is_huge(o.b) && r.chance(20)) o.c = 1; break;
            case INS_R: case RINS_R: o.a = pick(r, n); o.b = r.chance(70) ? r.below(4) : pick(r, lim); if (single_pass(kind) && cap > 300) o.b = std::min<size_t>(o.b, 40); o.c = kind; break;
            case ERASE1: case RERASE1: case W_IDX: case W_AT: case W_IT: case W_RIT: case W_ARR: case ROT: if (!n) continue; o.a = r.below(n); break;
            case ERASER: case RERASER: o.a = pick(r, n); o.b = o.a + (r.chance(60) ? std::min<size_t>(r.below(4), n - o.a) : pick(r, n - o.a)); break;
            case ERASE_BEG: case ERASE_END: if (SO) continue; o.a = r.chance(70) ? std::min<size_t>(r.below(4), n) : pick(r, n); break;
            case RESIZE: case RRESIZE: case RESIZE_D: case RRESIZE_D: o.a = r.chance(60) ? n + r.below(5) - std::min<size_t>(n, 2) : pick(r, capmax); if (o.a > cap && !r.chance(25)) o.a = pick(r, cap); break;
            case SETCAP: case RSETCAP: case K_CAP: o.a = newcap; o.c = mn; break;
            case ASG_N: case K_N: o.a = std::min<size_t>(newcap, 2000); break;
            case ASG_R: case K_R: o.b = std::min<size_t>(newcap, 2000); o.c = kind; break;
            case ASG_CN: case K_CN: o.a = newcap; o.b = std::min<size_t>(pick(r, newcap), 3000); o.c = mn; break;
            case ASG_CR: case K_CR: o.a = newcap; o.b = std::min<size_t>(pick(r, newcap + 3), 3000); o.c = mn | kind; break;
            default: break;
            }
            return true;
        }
        return false;
    }
    static void history(uint64_t seed, unsigned groups, size_t capmax, int steps, int full_every) {
        char b[160]; std::snprintf(b, sizeof b, "R:%llu,%u,%zu,%d,%d", (unsigned long long)seed, groups, capmax, steps, full_every);
        case_spec() = b; case_failed() = false; ++stats().cases;
        {
            W w; Rng r(seed); env().fault_on = false; op_text() = "building"; call_ops() = 0;
            const bool wide = full_every == 0;
            if (wide) {
                size_t cap = r.chance(60) ? capmax - r.below(std::min<size_t>(capmax, 3) + 1) : edge(r, capmax), n = r.chance(40) ? cap - std::min<size_t>(cap, r.below(3)) : edge(r, cap);
                w.build(0, cap, is_so<C>::value ? (r.chance(50) ? edge(r, cap) : 0) : 0, is_so<C>::value ? edge(r, cap) : 0, edge(r, cap), n);
                for (int i = 1; i < W::N; ++i) { size_t c2 = r.chance(50) ? cap : edge(r, capmax); w.build(i, c2, 0, is_so<C>::value ? edge(r, c2) : 0, edge(r, c2), edge(r, c2)); }
            }
            else for (int i = 0; i < W::N; ++i) {
                size_t cap = i == 0 ? capmax : pick(r, capmax), n = pick(r, std::min<size_t>(cap, 3000));
                w.build(i, cap, is_so<C>::value ? (r.chance(50) ? pick(r, cap) : 0) : 0, std::min<size_t>(r.below(cap + 1), 3000), std::min<size_t>(r.below(cap + 1), 5000), n);
            }
            for (int st = 0; st < steps && !case_failed(); ++st) {
                int i = r.chance(70) ? 0 : (int)r.below(W::N), j = (i + 1 + (int)r.below(W::N - 1)) % W::N;
                Op o; if (!random_op(r, w, i, groups, capmax, o, wide)) continue;
                char t[300]; std::snprintf(t, sizeof t, "step %d: container %d (size %zu capacity %zu), other %d: %s", st, i, w.m[i].v.size(), w.m[i].cap, j, op_human(o).c_str()); op_text() = t; sample_case();
                State hs = {w.m[i].cap, w.m[i].mincap, 0, 0, w.m[i].v.size()}; if (stats().distinct.size() < 4000000) stats().distinct.insert(hash_case(hs, o));
                if ((!two_slot(o.code) || o.code == COPYA) && w.m[i].v.size() <= (wide ? 5000u : 200u)) w.capture(i);
                int how = 0;
                try { w.apply(i, j, o); } catch (const std::length_error&) { how = 1; } catch (...) { how = 2; }
                if (case_failed()) break;
                if (how) { viol("throws", "unexpected-exception", "%s threw %s", op_human(o).c_str(), how == 1 ? "std::length_error" : "an unexpected exception"); break; }
                bool deep = wide || w.m[i].v.size() <= 40 || st % full_every == 0;
                if (!w.check(i, state_tag(o.code), deep)) break;
                if (two_slot(o.code) && w.c[j]) w.check(j, state_tag(o.code), deep);
                w.check_world(o.code);
            }
            if (!case_failed()) w.clear_all();
        }
        end_case(true);
    }

    // ------------------------------------------------------------------ faults
    static bool strong_op(int c) { return c == SETCAP || c == RSETCAP || c == COPYA; }
    // returns number of fault points seen (k < 0: count only)
    static long fault_one(const State& s, const State* s2, const Op& o, long k, unsigned mask) {
        std::vector<Op> v(1, o); case_spec() = text(s, s2, v, k, mask); case_failed() = false; human(s, s2, o);
        if (k >= 0) { char b[60]; std::snprintf(b, sizeof b, " with a throw at point %ld", k); op_text() += b; }
        sample_case(); ++stats().cases; long points = 0;
        {
            W w; w.no_fill = true; env().fault_on = false; call_ops() = 0; progress() = progress() + 1;
            w.build(0, s.cap, s.mn, s.init, s.off, s.n); if (s2) w.build(1, s2->cap, s2->mn, s2->init, s2->off, s2->n);
            Model b0 = w.m[0], b1 = w.m[1]; std::vector<const T*> addr; for (size_t q = 0; q < w.c[0]->size(); ++q) addr.push_back(&(*w.c[0])[q]);
            env().fault_on = true; env().k = k; env().mask = mask; env().points = 0; env().fired = 0;
            int how = 0; long id = 0;
            try { w.apply(0, 1, o); }
            catch (const Fault& f) { how = 1; id = f.id; } catch (const std::length_error&) { how = 2; } catch (...) { how = 3; }
            if (how) w.drop_captures();
            disarm(); env().fault_on = false; points = env().points;
            stats().faults_fired += env().fired > 0;
            if (case_failed()) goto done;
            if (how == 0) {
                if (env().fired) { viol("exc", "swallowed", "an exception thrown during the operation did not reach the caller"); goto done; }
                w.check(0, state_tag(o.code)); if (s2 && w.c[1]) w.check(1, state_tag(o.code)); w.check_world(o.code);
            } else {
                ++stats().throws; after_fault_tag() = "exc-state";
                if (how != 1 || !env().fired) { viol("exc", "other-exception", "a different exception reached the caller"); goto done; }
                if (id != env().thrown_id) { viol("exc", "other-exception", "the exception reaching the caller is not the one thrown"); goto done; }
                // strong guarantee: nothing changed
                if (w.c[0] && strong_op(o.code)) {
                    w.m[0] = b0; after_fault_tag() = "strong";
                    if (!w.check(0, "strong")) goto done;
                    after_fault_tag() = "exc-state";
                    for (size_t q = 0; q < addr.size(); ++q) if (&(*w.c[0])[q] != addr[q]) { viol("strong", "moved", "element %zu is at another address after a failed operation with the strong guarantee", q); goto done; }
                }
                if (s2 && w.c[1] && (o.code == COPYA || o.code == K_COPY)) { w.m[1] = b1; if (!w.check(1, "exc-state")) goto done; }
                resync(w, 0, b0); if (case_failed()) goto done;
                if (w.c[0]) { if (!w.check(0, "exc-state")) goto done; }
                w.check_world(o.code);
            }
            // the container stays usable
            if (!case_failed() && w.c[0]) { op_text() += " (then reuse)"; reuse(w); }
        done:
            if (!case_failed()) w.clear_all();
        }
        end_case(true);
        return points;
    }
    static void resync(W& w, int i, const Model& before) {
        if (!w.c[i]) { w.m[i] = Model(); return; }
        C& x = *w.c[i]; Model nm; nm.so = is_so<C>::value; nm.cap = (size_t)x.capacity(); nm.mincap = W::min_of(x);
        if (x.size() > nm.cap) { viol("exc-state", "size-over-capacity", "after an exception size() is %zu and capacity() %zu", (size_t)x.size(), nm.cap); return; }
        for (size_t q = 0; q < x.size(); ++q) {
            if (ET<T>::tracked && !live().has(&x[q])) { viol("exc-state", "dead-element", "after an exception element %zu of %zu is not a live object", q, (size_t)x.size()); return; }
            int g = ET<T>::get(x[q]);
            if (g == DEAD || g > 1000000) { viol("exc-state", "garbage", "after an exception element %zu holds garbage (%d)", q, g); return; }
            nm.v.push_back(g);
        }
        (void)before; w.m[i] = nm;
    }
    static void reuse(W& w) {
        w.cap_on = false;
        Op ops[] = {{PB_M, 0, 0, 0}, {PF_M, 0, 0, 0}, {INS_M, 1, 0, 0}, {POP_F, 0, 0, 0}, {RINS_M, 1, 0, 0}, {LIN, 0, 0, 0}, {ROT, 1, 0, 0}, {ERASE1, 0, 0, 0}, {SETCAP, 4, 0, 0}, {PB_M, 0, 0, 0}, {PB_M, 0, 0, 0}, {POP_B, 0, 0, 0}, {CLEAR, 0, 0, 0}, {PB_M, 0, 0, 0}};
        for (Op o : ops) {
            if (case_failed()) return;
            size_t n = w.m[0].v.size();
            if ((o.code == POP_B || o.code == POP_F || o.code == ERASE1) && !n) continue;
            if (o.code == ROT && n < 2) continue;
            if ((o.code == INS_M || o.code == RINS_M) && o.a > n) o.a = n;
            w.apply(0, 1, o); if (!case_failed()) w.check(0, "exc-state", false);
        }
        if (!case_failed()) w.check(0, "exc-state", true);
        w.check_world(OBS);
    }
    static void faults(unsigned groups, size_t maxcap, unsigned mask, unsigned shard, unsigned nshard, bool big, unsigned every, uint64_t seed) {
        Rng pick_rng(seed * 131 + 7);
        std::vector<State> st = states<C>(maxcap); if (big) { std::vector<State> b = big_states<C>(); for (size_t k = 0; k < b.size(); ++k) if (b[k].cap < 17) st.push_back(b[k]); }
        unsigned long idx = 0;
        for (const State& s : st) {
            ++stats().states;
            std::vector<Op> ops; gen_ops<C>(ops, groups, s, true);
            for (const Op& o : ops) {
                if (group_of(o.code) & (G_WRITE | G_OBS)) continue;
                if (every > 1 && pick_rng.below(every)) continue;
                if (idx++ % nshard != shard) continue;
                if (is_huge(o.b) && is_so<C>::value && s.cap > 100) continue;
                if (stats().distinct.size() < 4000000) stats().distinct.insert(hash_case(s, o));
                std::vector<State> v; if (two_slot(o.code)) second_states(v, s); else v.push_back(State());
                for (size_t q = 0; q < v.size(); ++q) {
                    const State* s2 = two_slot(o.code) ? &v[q] : 0;
                    long pts = fault_one(s, s2, o, -1, mask);
                    stats().fault_points += (uint64_t)pts;
                    for (long k = 0; k < pts && k < 400; ++k) fault_one(s, s2, o, k, mask);
                }
            }
        }
    }
    // random histories in which operations fail now and then
    static void fault_history(uint64_t seed, unsigned groups, size_t capmax, int steps, unsigned mask) {
        char b[160]; std::snprintf(b, sizeof b, "X:%llu,%u,%zu,%d,%u", (unsigned long long)seed, groups, capmax, steps, mask);
        case_spec() = b; case_failed() = false; ++stats().cases;
        {
            W w; w.no_fill = true; Rng r(seed); env().fault_on = false; op_text() = "building"; call_ops() = 0;
            for (int i = 0; i < W::N; ++i) { size_t cap = i == 0 ? capmax : pick(r, capmax); w.build(i, cap, is_so<C>::value ? (r.chance(50) ? pick(r, cap) : 0) : 0, r.below(cap + 1), r.below(cap + 1), pick(r, cap)); }
            for (int st = 0; st < steps && !case_failed(); ++st) {
                int i = (int)r.below(2), j = (i + 1 + (int)r.below(W::N - 1)) % W::N;
                if (!w.c[i]) { w.build(i, pick(r, capmax), 0, r.below(4), r.below(4), 0); }
                if (!w.c[j]) { w.build(j, pick(r, capmax), 0, r.below(4), r.below(4), 0); }
                Op o; if (!random_op(r, w, i, groups, capmax, o)) continue;
                if (is_huge(o.b)) continue;
                bool inject = r.chance(60); long k = (long)r.below(r.chance(50) ? 4 : 16);
                char t[300]; std::snprintf(t, sizeof t, "step %d: container %d (size %zu capacity %zu), other %d: %s%s", st, i, w.m[i].v.size(), w.m[i].cap, j, op_human(o).c_str(), inject ? (" throw at " + std::to_string(k)).c_str() : ""); op_text() = t;
                Model bi = w.m[i], bj = w.m[j];
                env().fault_on = inject; env().k = k; env().mask = mask; env().fired = 0;
                int how = 0; long id = 0;
                try { w.apply(i, j, o); } catch (const Fault& f) { how = 1; id = f.id; } catch (...) { how = 2; }
                if (how) w.drop_captures();
                disarm(); env().fault_on = false; if (case_failed()) break;
                if (how == 0) { if (inject && env().fired) { viol("exc", "swallowed", "an exception thrown during the operation did not reach the caller"); break; }
                    w.check(i, state_tag(o.code)); if (two_slot(o.code) && w.c[j]) w.check(j, state_tag(o.code)); }
                else {
                    ++stats().throws; ++stats().faults_fired; after_fault_tag() = "exc-state";
                    if (how != 1 || id != env().thrown_id) { viol("exc", "other-exception", "the exception reaching the caller is not the one thrown"); break; }
                    if (w.c[i] && strong_op(o.code)) { w.m[i] = bi; after_fault_tag() = "strong"; if (!w.check(i, "strong")) break; after_fault_tag() = "exc-state"; }
                    if (two_slot(o.code) && w.c[j] && (o.code == COPYA || o.code == K_COPY)) { w.m[j] = bj; if (!w.check(j, "exc-state")) break; }
                    resync(w, i, bi); if (case_failed()) break; if (w.c[i] && !w.check(i, "exc-state")) break;
                    if (two_slot(o.code)) { resync(w, j, bj); if (case_failed()) break; }
                }
                w.check_world(o.code);
            }
            if (!case_failed()) w.clear_all();
        }
        end_case(true);
    }

    // ------------------------------------------------------------------ replay
    static bool replay(const std::string& spec) {
        if (spec[0] == 'R') { unsigned long long seed; unsigned g; size_t cap; int st, fe; if (std::sscanf(spec.c_str(), "R:%llu,%u,%zu,%d,%d", &seed, &g, &cap, &st, &fe) == 5) { history(seed, g, cap, st, fe); return true; } return false; }
        if (spec[0] == 'X') { unsigned long long seed; unsigned g, mk; size_t cap; int st; if (std::sscanf(spec.c_str(), "X:%llu,%u,%zu,%d,%u", &seed, &g, &cap, &st, &mk) == 5) { fault_history(seed, g, cap, st, mk); return true; } return false; }
        State s = State(), s2 = State(); bool has2 = false; std::vector<Op> ops; long k = 0; unsigned mask = 0; size_t p = 0;
        while (p < spec.size()) {
            size_t e = spec.find(';', p); if (e == std::string::npos) e = spec.size(); std::string f = spec.substr(p, e - p); p = e + 1;
            if (f[0] == 'B') std::sscanf(f.c_str(), "B:%zu,%zu,%zu,%zu,%zu", &s.cap, &s.mn, &s.init, &s.off, &s.n);
            else if (f[0] == 'S') { has2 = true; std::sscanf(f.c_str(), "S:%zu,%zu,%zu,%zu,%zu", &s2.cap, &s2.mn, &s2.init, &s2.off, &s2.n); }
            else if (f[0] == 'F') std::sscanf(f.c_str(), "F:%ld,%u", &k, &mask);
            else if (f[0] == 'O') { Op o; std::sscanf(f.c_str(), "O:%d,%zu,%zu,%d", &o.code, &o.a, &o.b, &o.c); ops.push_back(o); }
        }
        if (mask) fault_one(s, has2 ? &s2 : 0, ops.at(0), k, mask); else one(s, has2 ? &s2 : 0, ops, true);
        return true;
    }
};

inline void print_stats(const char* cfg) {
    Stats& s = stats();
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"%s\",\"cases\":%llu,\"ops\":%llu,\"checks\":%llu,\"states\":%llu,\"distinct\":%llu,\"events\":%llu,\"fault_points\":%llu,\"faults_fired\":%llu,\"throws\":%llu,"
        "\"len_errors\":%llu,\"stable_refs\":%llu,\"wrapped\":%llu,\"full\":%llu,\"reloc_moves\":%llu,\"reloc_copies\":%llu,\"lin_work\":%llu,\"allocs\":%llu,\"deallocs\":%llu,\"ops_by_code\":{",
        cfg, (unsigned long long)s.cases, (unsigned long long)s.ops, (unsigned long long)s.checks, (unsigned long long)s.states, (unsigned long long)s.distinct.size(), (unsigned long long)total_events(),
        (unsigned long long)s.fault_points, (unsigned long long)s.faults_fired, (unsigned long long)s.throws, (unsigned long long)s.len_errors, (unsigned long long)s.stable_refs, (unsigned long long)s.wrapped, (unsigned long long)s.fullstates,
        (unsigned long long)s.moved_relocs, (unsigned long long)s.copied_relocs, (unsigned long long)s.lin_moves, (unsigned long long)cnt().alloc, (unsigned long long)cnt().dealloc);
    bool first = true;
    for (int c = 0; c < CODE_COUNT; ++c) if (s.per_code[c]) { std::printf("%s\"%s\":%llu", first ? "" : ",", code_name(c), (unsigned long long)s.per_code[c]); first = false; }
#if BOOST_CB_ENABLE_DEBUG
    std::printf("},\"debug_probes\":{\"valid\":%llu,\"invalidated\":%llu,\"filled_slots\":%llu", dbg().probes_valid, dbg().probes_invalid, dbg().fills);
#endif
    std::printf("},\"range_kinds\":{"); first = true;
    for (int c = 0; c < RK_COUNT; ++c) if (s.per_kind[c]) { std::printf("%s\"%s\":%llu", first ? "" : ",", range_name(c), (unsigned long long)s.per_kind[c]); first = false; }
    std::printf("}}\n"); std::fflush(stdout);
}
} // namespace mon

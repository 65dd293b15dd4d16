// Runtime monitor shared by every driver: violation reports, fault injection, instrumented
// element types, instrumented allocator.  Nothing here looks inside the library: it observes
// what the library does to user-supplied types, allocators and iterators.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <algorithm>
#include <new>
#include <memory>
#include <utility>
#include <exception>
#include <unistd.h>
#include <sys/time.h>

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
#include <sanitizer/asan_interface.h>
#define MON_POISON(p, n) __asan_poison_memory_region((p), (n))
#define MON_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define MON_POISON(p, n) ((void)0)
#define MON_UNPOISON(p, n) ((void)0)
#endif

namespace mon {

// ---------------------------------------------------------------- reports
inline std::string& case_spec() { static std::string s; return s; }   // replayable description
inline std::string& op_text() { static std::string s; return s; }
inline bool& case_failed() { static bool b = false; return b; }
inline int& viol_count() { static int n = 0; return n; }
inline int& wanted_count() { static int n = 0; return n; }
inline std::string& want() { static std::string s; return s; }        // comma separated tags, "" = all
inline std::string& phase() { static std::string s; return s; }       // appended to the tag context
inline bool& quiet() { static bool b = false; return b; }

inline bool wanted(const char* tag) {
    const std::string& w = want();
    return w.empty() || (("," + w + ",").find(std::string(",") + tag + ",") != std::string::npos);
}
inline void json_escape(std::string& out, const char* s) {
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
        else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += (char)c;
    }
}
inline void emit(const char* kind, const char* tag, const char* key, const char* msg) {
    std::string s = "{\"t\":\""; s += kind; s += "\",\"tag\":\""; s += tag; s += "\",\"key\":\"";
    json_escape(s, key); s += "\",\"case\":\""; json_escape(s, case_spec().c_str());
    s += "\",\"op\":\""; json_escape(s, op_text().c_str());
    s += "\",\"msg\":\""; json_escape(s, msg); s += "\"}\n";
    std::fflush(stdout);
    size_t off = 0;
    while (off < s.size()) { ssize_t r = ::write(1, s.data() + off, s.size() - off); if (r <= 0) break; off += (size_t)r; }
}
inline int& max_viol() { static int n = 40; return n; }
inline bool& dedup_keys() { static bool b = false; return b; }      // report each key once
inline bool& muted_flag() { static bool b = false; return b; }      // count instead of report
inline uint64_t& muted_count() { static uint64_t n = 0; return n; }
inline void finish_early() { std::fflush(stdout); ::_exit(3); }

// key identifies the failing call site class (op + container + condition); used for known findings
inline void viol(const char* tag, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
inline const char*& after_fault_tag() { static const char* t = 0; return t; }   // set once an exception came out of the library
inline void viol(const char* tag, const char* key, const char* fmt, ...) {
    if (after_fault_tag() && (!std::strcmp(tag, "access") || !std::strcmp(tag, "iter") || !std::strcmp(tag, "lin") || !std::strncmp(tag, "state-", 6))) tag = after_fault_tag();
    if (muted_flag()) { ++muted_count(); return; }
    if (dedup_keys()) { static std::vector<std::string> seen; std::string k = std::string(tag) + "/" + key; for (const std::string& o : seen) if (o == k) return; seen.push_back(k); }
    char buf[1024];
    va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    bool first = !case_failed();
    case_failed() = true;
    ++viol_count();
    bool w = wanted(tag);
    if (w) ++wanted_count();
    // only the first few reports of one case are interesting
    static int per_case = 0;
    if (first) per_case = 0;
    if (++per_case <= 6 && (w || viol_count() < 200)) emit("viol", tag, key, buf);
    if (wanted_count() >= max_viol()) finish_early();
}

// a few of the cases that were run, for the evidence
inline void sample_case() {
    static uint64_t n = 0, next = 2; if (++n != next) return;
    next = next * 7 + 1; std::string s = "\n{\"t\":\"sample\",\"text\":\""; json_escape(s, op_text().c_str()); s += "\",\"case\":\""; json_escape(s, case_spec().c_str()); s += "\"}\n"; std::fputs(s.c_str(), stdout); std::fflush(stdout);
}
// ---------------------------------------------------------------- watchdog and crashes
inline volatile uint64_t& progress() { static volatile uint64_t n = 0; return n; }  // API calls made
inline volatile uint64_t& call_ops() { static volatile uint64_t n = 0; return n; }  // element operations in this call

inline void raw_puts(const char* s) { ssize_t r = ::write(1, s, std::strlen(s)); (void)r; }
inline void die(const char* kind, int code) {
    // async-signal context: the case string is complete, so this only reads it
    raw_puts("\n{\"t\":\""); raw_puts(kind);
    raw_puts("\",\"tag\":\"crash\",\"key\":\"\",\"case\":\"");
    std::string e; json_escape(e, case_spec().c_str()); raw_puts(e.c_str());
    raw_puts("\",\"op\":\""); e.clear(); json_escape(e, op_text().c_str()); raw_puts(e.c_str());
    raw_puts("\",\"msg\":\""); raw_puts(kind); raw_puts("\"}\n");
    ::_exit(code);
}
inline void on_signal(int sig) {
    die(sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL", 70);
}
inline int& hang_secs() { static int n = 10; return n; }
inline void on_vtalrm(int) {
    static uint64_t last = 0; static int same = 0;
    if (progress() == last) { if (++same >= hang_secs()) die("HANG", 71); }
    else { same = 0; last = progress(); }
}
inline void on_terminate() {
    const char* w = "std::terminate";
    (void)w;
    die("TERMINATE", 72);
}
inline bool& in_death() { static bool b = false; return b; }
inline void on_sanitizer_death() { if (!in_death()) { in_death() = true; raw_puts("\n{\"t\":\"SANITIZER\",\"tag\":\"crash\",\"key\":\"\",\"case\":\"");
    std::string e; json_escape(e, case_spec().c_str()); raw_puts(e.c_str()); raw_puts("\",\"op\":\""); e.clear();
    json_escape(e, op_text().c_str()); raw_puts(e.c_str()); raw_puts("\",\"msg\":\"sanitizer report, see stderr\"}\n"); } }
} // namespace mon
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace mon {
inline void install() {
    std::set_terminate(on_terminate);
#ifndef MON_ASAN
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL};
    for (int s : sigs) std::signal(s, on_signal);
#endif
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_sanitizer_death);
    std::signal(SIGVTALRM, on_vtalrm);
    itimerval tv; tv.it_interval.tv_sec = 1; tv.it_interval.tv_usec = 0; tv.it_value = tv.it_interval;
    ::setitimer(ITIMER_VIRTUAL, &tv, 0);
}

// ---------------------------------------------------------------- deterministic PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
};

// ---------------------------------------------------------------- faults
struct Fault { long id; explicit Fault(long i) : id(i) {} };
enum FaultMask { F_ELEM = 1, F_ALLOC = 2, F_SRC = 4, F_CMP = 8 };
struct FaultState { long countdown; long fired; unsigned mask; long points; long next_id; };
inline FaultState& fs() { static FaultState f = {-1, 0, 0, 0, 1}; return f; }
inline void arm(long k, unsigned mask) { fs().countdown = k; fs().fired = 0; fs().mask = mask; fs().points = 0; }
inline void disarm() { fs().countdown = -1; fs().mask = 0; }
inline bool point(unsigned kind) {           // true: throw here
    FaultState& f = fs();
    if (!(f.mask & kind)) return false;
    ++f.points;
    if (f.countdown >= 0 && f.countdown-- == 0) { ++f.fired; return true; }
    return false;
}
inline void maybe_throw(unsigned kind) { if (point(kind)) throw Fault(++fs().next_id); }

// ---------------------------------------------------------------- counters
struct Count { uint64_t dctor, vctor, cctor, mctor, cassign, massign, dtor, alloc, dealloc, hook_construct, hook_destroy; };
inline Count& cnt() { static Count c = {}; return c; }
inline Count operator-(const Count& a, const Count& b) {
    Count r = {a.dctor - b.dctor, a.vctor - b.vctor, a.cctor - b.cctor, a.mctor - b.mctor, a.cassign - b.cassign, a.massign - b.massign,
               a.dtor - b.dtor, a.alloc - b.alloc, a.dealloc - b.dealloc, a.hook_construct - b.hook_construct, a.hook_destroy - b.hook_destroy};
    return r;
}
inline uint64_t& hook_base() { static uint64_t n = 0; return n; }     // constructions minus destructions through the allocator before this case
inline uint64_t work(const Count& c) { return c.dctor + c.vctor + c.cctor + c.mctor + c.cassign + c.massign; }
inline uint64_t& total_events() { static uint64_t n = 0; return n; }
inline uint64_t& call_budget() { static uint64_t n = 50000000ull; return n; }
inline void tick() {
    ++total_events();
    call_ops() = call_ops() + 1;
    if (call_ops() > call_budget()) die("RUNAWAY", 73);
}

// ---------------------------------------------------------------- live-object registry
class LiveSet {
    std::vector<const void*> t; size_t mask, used, live_;
    static size_t h(const void* p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return (size_t)x; }
    void grow() { std::vector<const void*> o; o.swap(t); size_t n = (mask + 1) * 2; while (n < live_ * 4) n *= 2;
        t.assign(n, (const void*)0); mask = n - 1; used = 0; live_ = 0;
        for (const void* p : o) if (p && p != (const void*)1) insert(p); }
public:
    LiveSet() : t(4096, (const void*)0), mask(4095), used(0), live_(0) {}
    bool has(const void* p) const { for (size_t i = h(p) & mask;; i = (i + 1) & mask) { if (t[i] == p) return true; if (!t[i]) return false; } }
    bool insert(const void* p) {
        if (has(p)) return false;
        if ((used + 1) * 2 > mask) grow();
        for (size_t i = h(p) & mask;; i = (i + 1) & mask) if (!t[i] || t[i] == (const void*)1) { if (!t[i]) ++used; t[i] = p; ++live_; return true; }
    }
    bool erase(const void* p) { for (size_t i = h(p) & mask;; i = (i + 1) & mask) { if (t[i] == p) { t[i] = (const void*)1; --live_; return true; } if (!t[i]) return false; } }
    size_t size() const { return live_; }
    void clear() { if (used) { t.assign(4096, (const void*)0); mask = 4095; used = 0; live_ = 0; } }
    template <class F> void each(F f) const { for (const void* p : t) if (p && p != (const void*)1) f(p); }
};
inline LiveSet& live() { static LiveSet s; return s; }

const int MOVED = -1, DEAD = -2;

// ---------------------------------------------------------------- instrumented elements
struct ElemCore {
    int v; const void* self;
    void born(int x, const char* how) {
        tick(); v = x; self = this;
        if (!live().insert(this)) viol("lifetime", "construct-over-live", "%s at %p: an element already lives there", how, (void*)this);
    }
    void check_src(const char* how) const {
        if (!live().has(this)) viol("lifetime", "read-dead", "%s from %p: no element lives there", how, (const void*)this);
        else if (self != this) viol("lifetime", "bitwise", "%s from %p: element was relocated bitwise", how, (const void*)this);
    }
    void check_dst(const char* how) const {
        if (!live().has(this)) viol("lifetime", "assign-dead", "%s to %p: no element lives there", how, (const void*)this);
        else if (self != this) viol("lifetime", "bitwise", "%s to %p: element was relocated bitwise", how, (const void*)this);
    }
    void died() {
        tick();
        ++cnt().dtor;
        if (!live().erase(this)) viol("lifetime", "destroy-dead", "destruction at %p: no element lives there", (void*)this);
        v = DEAD; self = 0;
    }
    int get() const { check_src("value read"); return v; }
};
#define MON_ELEM(Name, HASCOPY, HASMOVE, NXC, NXA, DEFCTOR)                                                  \
    struct Name : ElemCore {                                                                                \
        enum { copyable = HASCOPY, movable = HASMOVE, nxc = NXC, nxa = NXA };                               \
        Name() { maybe_throw(F_ELEM); ++cnt().dctor; born(0, "default construction"); }                     \
        Name(int x) { maybe_throw(F_ELEM); ++cnt().vctor; born(x, "construction"); }                       \
        MON_COPY_##HASCOPY(Name) MON_MOVE_##HASMOVE(Name, NXC, NXA) ~Name() { died(); }                     \
    };
#define MON_COPY_1(Name)                                                                                    \
    Name(const Name& o) : ElemCore() { o.check_src("copy construction"); maybe_throw(F_ELEM); ++cnt().cctor; born(o.v, "copy construction"); } \
    Name& operator=(const Name& o) { check_dst("copy assignment"); o.check_src("copy assignment"); maybe_throw(F_ELEM); tick(); ++cnt().cassign; v = o.v; return *this; }
#define MON_COPY_0(Name) Name(const Name&) = delete; Name& operator=(const Name&) = delete;
#define MON_MOVE_0(Name, NXC, NXA)
#define MON_MOVE_1(Name, NXC, NXA)                                                                          \
    Name(Name&& o) noexcept(NXC) : ElemCore() { o.check_src("move construction"); if (!NXC) maybe_throw(F_ELEM); ++cnt().mctor; born(o.v, "move construction"); o.v = MOVED; } \
    Name& operator=(Name&& o) noexcept(NXA) { check_dst("move assignment"); o.check_src("move assignment"); if (!NXA) maybe_throw(F_ELEM); tick(); ++cnt().massign; if (this != &o) { v = o.v; o.v = MOVED; } return *this; }

MON_ELEM(ElemN, 1, 1, true, true, 1)     // copyable, everything noexcept-movable
MON_ELEM(ElemT, 1, 1, false, false, 1)   // copyable, moves may throw
MON_ELEM(ElemC, 1, 0, false, false, 1)   // copy only
MON_ELEM(ElemM, 0, 1, true, true, 1)     // move only
MON_ELEM(ElemA, 1, 1, true, false, 1)    // noexcept move construction, throwing move assignment
MON_ELEM(ElemB, 1, 1, false, true, 1)    // throwing move construction, noexcept move assignment

template <class T> inline bool elem_eq(const T& a, const T& b) { tick(); maybe_throw(F_CMP); return a.get() == b.get(); }
#define MON_CMP(Name)                                                                                       \
    inline bool operator==(const Name& a, const Name& b) { return elem_eq(a, b); }                          \
    inline bool operator<(const Name& a, const Name& b) { tick(); maybe_throw(F_CMP); return a.get() < b.get(); }
MON_CMP(ElemN) MON_CMP(ElemT) MON_CMP(ElemC) MON_CMP(ElemM) MON_CMP(ElemA) MON_CMP(ElemB)

struct alignas(64) Big { int v; int pad[39]; Big() : v(0) { fill(); } Big(int x) : v(x) { fill(); }
    void fill() { for (int i = 0; i < 39; ++i) pad[i] = v * 31 + i; }
    bool ok() const { for (int i = 0; i < 39; ++i) if (pad[i] != v * 31 + i) return false; return true; } };
inline bool operator==(const Big& a, const Big& b) { return a.v == b.v; }
inline bool operator<(const Big& a, const Big& b) { return a.v < b.v; }

// uniform access to values
template <class T> struct ET {                       // instrumented elements
    enum { tracked = 1, copyable = T::copyable, movable = T::movable, nxc = T::nxc, nxa = T::nxa, scalar = 0 };
    static T mk(int x) { return T(x); }
    static int get(const T& e) { return e.get(); }
    static void set(T& e, int x) { e.check_dst("write"); e.v = x; }
    static int norm(int x) { return x; }
};
template <class T> struct ETPlain { enum { tracked = 0, copyable = 1, movable = 1, nxc = 1, nxa = 1, scalar = 1 };
    static T mk(int x) { return (T)x; } static int get(const T& e) { return (int)e; } static void set(T& e, int x) { e = (T)x; } static int norm(int x) { return (int)(T)x; } };
template <> struct ET<int> : ETPlain<int> {};
typedef unsigned char uchar;
template <> struct ET<unsigned char> : ETPlain<unsigned char> {};
template <> struct ET<short> : ETPlain<short> {};
template <> struct ET<long long> : ETPlain<long long> {};
template <> struct ET<double> : ETPlain<double> {};
template <> struct ET<int*> { enum { tracked = 0, copyable = 1, movable = 1, nxc = 1, nxa = 1, scalar = 1 };
    static int* mk(int x) { return reinterpret_cast<int*>((intptr_t)x * 8); } static int get(int* const& e) { return (int)((intptr_t)e / 8); } static void set(int*& e, int x) { e = mk(x); } static int norm(int x) { return x; } };
template <> struct ET<Big> { enum { tracked = 0, copyable = 1, movable = 1, nxc = 1, nxa = 1, scalar = 0 };
    static Big mk(int x) { return Big(x); } static int get(const Big& e) { return e.ok() && ((uintptr_t)&e % 64) == 0 ? e.v : DEAD; } static void set(Big& e, int x) { e = Big(x); } static int norm(int x) { return x; } };
template <> struct ET<std::string> { enum { tracked = 0, copyable = 1, movable = 1, nxc = 1, nxa = 1, scalar = 0 };
    static std::string mk(int x) { return x == 0 ? std::string() : "a string that does not fit inline #" + std::to_string(x); }
    static int get(const std::string& e) { if (e.empty()) return 0; size_t p = e.find('#'); return p == std::string::npos ? DEAD : std::atoi(e.c_str() + p + 1); }
    static void set(std::string& e, int x) { e = mk(x); } static int norm(int x) { return x; } };

// ---------------------------------------------------------------- instrumented allocator
struct Block { char* raw; char* p; size_t n, elem, bytes; int id; bool freed; };
inline std::vector<Block>& blocks() { static std::vector<Block> b; return b; }
inline std::vector<Block>& quarantine() { static std::vector<Block> b; return b; }
const size_t GUARD = 64;
inline size_t& max_elems() { static size_t n = (size_t)-1 / 512; return n; }

// allocators the user gave to the operation in progress (empty outside operations)
inline std::vector<int>& given_ids() { static std::vector<int> v; return v; }
inline void* mon_allocate(size_t n, size_t elem, int id) {
    if (!given_ids().empty() && std::find(given_ids().begin(), given_ids().end(), id) == given_ids().end()) viol("alloc", "foreign-allocator", "memory for %zu objects taken from allocator %d, which was not given to the container", n, id);
    maybe_throw(F_ALLOC); tick();
    ++cnt().alloc;
    if (n == 0) viol("alloc", "allocate-zero", "allocate(0) was called");
    if (n > max_elems()) { viol("alloc", "allocate-over-max", "allocate(%zu) above max_size() %zu", n, max_elems()); throw std::bad_alloc(); }
    size_t bytes = n * elem;
    char* raw = (char*)std::aligned_alloc(64, (bytes + 2 * GUARD + 63) / 64 * 64);
    if (!raw) throw std::bad_alloc();
    std::memset(raw, 0x5C, GUARD); std::memset(raw + GUARD, 0xA5, bytes); std::memset(raw + GUARD + bytes, 0x5C, GUARD);
    MON_POISON(raw, GUARD);
    MON_POISON(raw + GUARD + bytes, GUARD);
    Block b = {raw, raw + GUARD, n, elem, bytes, id, false};
    blocks().push_back(b);
    return b.p;
}
inline void check_guards(const Block& b) {
    MON_UNPOISON(b.raw, GUARD); MON_UNPOISON(b.raw + GUARD + b.bytes, GUARD);
    for (size_t i = 0; i < GUARD; ++i)
        if ((unsigned char)b.raw[i] != 0x5C || (unsigned char)b.p[b.bytes + i] != 0x5C) { viol("memory", "guard", "bytes outside the block of %zu elements were overwritten", b.n); break; }
    MON_POISON(b.raw, GUARD); MON_POISON(b.raw + GUARD + b.bytes, GUARD);
}
inline void mon_deallocate(void* p, size_t n, size_t elem, int id, bool objects_tracked) {
    tick(); ++cnt().dealloc;
    std::vector<Block>& bs = blocks();
    for (size_t i = 0; i < bs.size(); ++i)
        if (bs[i].p == p) {
            Block b = bs[i];
            if (b.n != n || b.elem != elem) viol("alloc", "dealloc-size", "block allocated for %zu elements is deallocated as %zu", b.n, n);
            if (b.id != id) viol("alloc", "dealloc-foreign", "block of allocator %d is deallocated by allocator %d", b.id, id);
            check_guards(b);
            if (objects_tracked) {
                size_t left = 0;
                for (size_t k = 0; k < b.n; ++k) if (live().has(b.p + k * b.elem)) ++left;
                if (left) viol("lifetime", "leak-in-freed-block", "%zu elements still live in a block being deallocated", left);
            }
            bs.erase(bs.begin() + (long)i);
            std::memset(b.p, 0xDD, b.bytes);
            MON_POISON(b.p, b.bytes);
            b.freed = true; quarantine().push_back(b);
            return;
        }
    for (const Block& b : quarantine()) if (b.p == p) { viol("alloc", "double-free", "deallocate(%p): already deallocated", p); return; }
    viol("alloc", "dealloc-unknown", "deallocate(%p, %zu): not an allocated block", p, n);
}
inline void release(Block& b) { MON_UNPOISON(b.raw, b.bytes + 2 * GUARD); std::free(b.raw); }
inline void flush_quarantine() {
    for (Block& b : quarantine()) {
        MON_UNPOISON(b.p, b.bytes);
        for (size_t i = 0; i < b.bytes; ++i) if ((unsigned char)b.p[i] != 0xDD) { viol("memory", "write-after-free", "a deallocated block was written to"); break; }
        release(b);
    }
    quarantine().clear();
}
inline void reset_world() {         // after a failed case: forget everything it left behind
    for (Block& b : blocks()) release(b);
    blocks().clear();
    for (Block& b : quarantine()) release(b);
    quarantine().clear();
    live().clear();
    disarm();
}
inline const Block* block_of(const void* p) { for (const Block& b : blocks()) if ((const char*)p >= b.p && (const char*)p < b.p + b.bytes) return &b; return 0; }

template <class T> struct is_tracked { enum { value = std::is_base_of<ElemCore, T>::value }; };

template <class T> struct MonAlloc {
    typedef T value_type;
    int id;
    MonAlloc(int i = 0) noexcept : id(i) {}
    template <class U> MonAlloc(const MonAlloc<U>& o) noexcept : id(o.id) {}
    T* allocate(size_t n) { return static_cast<T*>(mon_allocate(n, sizeof(T), id)); }
    void deallocate(T* p, size_t n) { mon_deallocate(p, n, sizeof(T), id, is_tracked<T>::value); }
    template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); ++cnt().hook_construct; }
    template <class U> void destroy(U* p) { ++cnt().hook_destroy; p->~U(); }
    size_t max_size() const noexcept { return max_elems(); }
};
template <class T, class U> inline bool operator==(const MonAlloc<T>& a, const MonAlloc<U>& b) { return a.id == b.id; }
template <class T, class U> inline bool operator!=(const MonAlloc<T>& a, const MonAlloc<U>& b) { return a.id != b.id; }

} // namespace mon

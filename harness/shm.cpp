// Containers living in shared memory: objects, allocator and elements are inside one region that is mapped
// at several addresses.  While one mapping is used every other one is inaccessible, so an absolute address
// kept anywhere in the container faults; a forked process works on the same containers at an address of its own.
#include "mon.hpp"
#include <boost/interprocess/offset_ptr.hpp>
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace mon;
namespace bi = boost::interprocess;
static uint64_t n_ops = 0, n_moves = 0, n_forks = 0, n_checks = 0, n_rounds = 0;
const size_t REGION = 1 << 20, SLOTS = 120, SLOT = 8192;
struct Arena { size_t used[SLOTS]; uint64_t allocs, frees; };       // slot k begins at REGION - (SLOTS - k) * SLOT
struct Al0 { bi::offset_ptr<Arena> a; };
template <class T> struct ArenaAlloc {
    typedef T value_type; typedef bi::offset_ptr<T> pointer; typedef bi::offset_ptr<const T> const_pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef T& reference; typedef const T& const_reference;
    template <class U> struct rebind { typedef ArenaAlloc<U> other; };
    bi::offset_ptr<Arena> a;
    explicit ArenaAlloc(Arena* p = 0) : a(p) {} template <class U> ArenaAlloc(const ArenaAlloc<U>& o) : a(o.a) {} ArenaAlloc(const ArenaAlloc& o) : a(o.a) {} ArenaAlloc& operator=(const ArenaAlloc& o) { a = o.a; return *this; }
    pointer allocate(size_t n) { if (n * sizeof(T) > SLOT) throw std::bad_alloc(); for (size_t k = 0; k < SLOTS; ++k) if (!a->used[k]) { a->used[k] = n * sizeof(T) + 1; ++a->allocs; return pointer((T*)((char*)a.get() + REGION - (SLOTS - k) * SLOT)); } throw std::bad_alloc(); }
    void deallocate(pointer p, size_t n) { size_t off = (size_t)((char*)p.get() - (char*)a.get()), k = (off - (REGION - SLOTS * SLOT)) / SLOT; if (off < REGION - SLOTS * SLOT || k >= SLOTS || a->used[k] != n * sizeof(T) + 1) { viol("fancy", "shm-dealloc", "deallocation of a block that is not in the region or of another size"); return; } a->used[k] = 0; ++a->frees; std::memset((void*)p.get(), 0xDD, SLOT); }
    size_t max_size() const { return SLOT / sizeof(T); }
};
template <class T, class U> inline bool operator==(const ArenaAlloc<T>& x, const ArenaAlloc<U>& y) { return x.a == y.a; }
template <class T, class U> inline bool operator!=(const ArenaAlloc<T>& x, const ArenaAlloc<U>& y) { return !(x == y); }
struct Cell { int v; bi::offset_ptr<Cell> self; Cell(int x = 0) : v(x), self(this) {} Cell(const Cell& o) : v(o.get()), self(this) {} Cell& operator=(const Cell& o) { v = o.get(); return *this; } ~Cell() { v = -7; self = 0; }
    int get() const { if (self.get() != this) viol("fancy", "shm-element", "element was relocated bitwise or is not constructed"); return v; } };
static bool operator==(const Cell& a, const Cell& b) { return a.get() == b.get(); }
static int num(int x) { return x; } static int num(const Cell& c) { return c.get(); }
template <class C> struct is_so { enum { value = std::is_constructible<typename C::capacity_type, size_t, size_t>::value }; };
template <class C> typename std::enable_if<!is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t) { return c; }
template <class C> typename std::enable_if<is_so<C>::value, typename C::capacity_type>::type mkcap(size_t c, size_t m) { return typename C::capacity_type(c, m); }
struct Map { char* p; };
static int fd_ = -1;
static char* map_at() { void* p = ::mmap(0, REGION, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0); if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); } return (char*)p; }
template <class C> struct World {
    typedef typename C::value_type T; struct Root { Arena a; alignas(C) char c[2][sizeof(C)]; int vals[2][64]; size_t n[2], cap[2]; uint64_t rng; };
    static C& at(char* b, int i) { return *(C*)((Root*)b)->c[i]; }
    static void check(char* b, const char* when) {
        Root& r = *(Root*)b;
        for (int i = 0; i < 2; ++i) { C& c = at(b, i); const C& k = c; ++n_checks;
            if (c.size() != r.n[i] || (size_t)c.capacity() != r.cap[i]) { viol("fancy", "shm-size", "%s: size %zu capacity %zu, specified %zu and %zu", when, (size_t)c.size(), (size_t)c.capacity(), r.n[i], r.cap[i]); return; }
            for (size_t q = 0; q < r.n[i]; ++q) if (num(c[q]) != r.vals[i][q]) { viol("fancy", "shm-content", "%s: element %zu is %d, specified %d", when, q, num(c[q]), r.vals[i][q]); return; }
            size_t q = 0; for (typename C::const_iterator it = k.begin(); it != k.end(); ++it, ++q) if (q >= r.n[i] || num(*it) != r.vals[i][q]) { viol("fancy", "shm-iteration", "%s: iteration differs at %zu", when, q); return; }
            if (q != r.n[i]) { viol("fancy", "shm-iteration", "%s: iteration visits %zu of %zu elements", when, q, r.n[i]); return; }
            for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) if (!q || num(*it) != r.vals[i][--q]) { viol("fancy", "shm-iteration", "%s: reverse iteration differs at %zu", when, q); return; }
            for (size_t z = 0; z < r.n[i]; ++z) { const char* e = (const char*)&c[z]; if (e < b || e >= b + REGION) { viol("fancy", "shm-address", "%s: element %zu is outside the mapping in use", when, z); return; } }
            { typename C::iterator d1 = typename C::iterator(), d2 = typename C::iterator(); typename C::const_iterator e1 = typename C::const_iterator(), e2 = d1; typename C::const_iterator e3(e1); typename C::iterator d3; d3 = d1;
              typename C::iterator* heap = new typename C::iterator(); bool eq = d1 == d2 && e1 == e2 && !(d1 != d2) && e3 == e2 && d3 == d2 && *heap == d1; delete heap;
              if (!eq) { viol("fancy", "shm-null-iterator", "%s: default constructed iterators differ", when); return; } }
            if (c.array_one().second + c.array_two().second != r.n[i]) { viol("fancy", "shm-arrays", "%s: array ranges do not add up", when); return; }
        }
    }
    static void step(char* b, Rng& g) {
        Root& r = *(Root*)b; int i = (int)g.below(2), j = 1 - i; C& c = at(b, i); size_t n = r.n[i], cap = r.cap[i]; int x = (int)g.below(10000); int* v = r.vals[i]; ++n_ops;
        std::vector<int> m(v, v + n); size_t p = g.below(n + 1); unsigned op = (unsigned)g.below(19); char t[120]; std::snprintf(t, sizeof t, "op %u at %zu of %zu capacity %zu", op, p, n, cap); op_text() = t; progress() = progress() + 1; call_ops() = 0;
        switch (op) {
        case 0: case 1: c.push_back(T(x)); if (cap) { if (n == cap) m.erase(m.begin()); m.push_back(x); } break;
        case 2: c.push_front(T(x)); if (cap) { if (n == cap) m.pop_back(); m.insert(m.begin(), x); } break;
        case 3: if (n) { c.pop_front(); m.erase(m.begin()); } break;
        case 4: if (n) { c.pop_back(); m.pop_back(); } break;
        case 5: if (n < cap) { c.insert(c.begin() + (long)p, T(x)); m.insert(m.begin() + (long)p, x); } break;
        case 6: if (n < cap) { c.rinsert(c.begin() + (long)p, T(x)); m.insert(m.begin() + (long)p, x); } break;
        case 7: { size_t k = g.below(4); if (n + k <= cap) { c.insert(c.begin() + (long)p, k, T(x)); m.insert(m.begin() + (long)p, k, x); } break; }
        case 8: { size_t k = g.below(4); if (n + k <= cap) { std::vector<T> s; std::vector<int> w; for (size_t q = 0; q < k; ++q) { s.push_back(T(x + (int)q)); w.push_back(x + (int)q); } c.rinsert(c.begin() + (long)p, s.begin(), s.end()); m.insert(m.begin() + (long)p, w.begin(), w.end()); } break; }
        case 9: if (p < n) { c.erase(c.begin() + (long)p); m.erase(m.begin() + (long)p); } break;
        case 10: if (p < n) { c.rerase(c.begin() + (long)p); m.erase(m.begin() + (long)p); } break;
        case 11: c.linearize(); break;
        case 12: if (p < n) { c.rotate(c.begin() + (long)p); std::rotate(m.begin(), m.begin() + (long)p, m.end()); } break;
        case 13: cap = std::min<size_t>(n + g.below(6), 60); if (cap >= n) { c.set_capacity(mkcap<C>(cap, g.below(cap + 1))); r.cap[i] = cap; } else cap = r.cap[i]; break;
        case 14: { size_t k = std::min<size_t>(g.below(2 * n + 3), 60); c.resize(k, T(x)); m.resize(k, x); if (k > r.cap[i]) r.cap[i] = k; break; }
        case 15: { at(b, i) = at(b, j); m.assign(r.vals[j], r.vals[j] + r.n[j]); r.cap[i] = r.cap[j]; break; }
        case 16: { at(b, i).swap(at(b, j)); std::vector<int> o(r.vals[j], r.vals[j] + r.n[j]); std::copy(m.begin(), m.end(), r.vals[j]); r.n[j] = m.size(); std::swap(r.cap[i], r.cap[j]); m = o; break; }
        case 17: { C tmp(c); c.clear(); C mv(std::move(tmp)); c.swap(mv); break; }
        case 18: { std::vector<T> s(g.below(7), T(x)); c.assign(s.begin(), s.end()); m.assign(s.size(), x); r.cap[i] = s.size(); break; }
        }
        std::copy(m.begin(), m.end(), v); r.n[i] = m.size();
    }
    static void round(const char* name, uint64_t seed, int phases, bool forks) {
        char buf[160]; std::snprintf(buf, sizeof buf, "shm:%s:%llu", name, (unsigned long long)seed); case_spec() = buf; op_text() = buf; sample_case(); case_failed() = false; ++n_rounds; Rng g(seed);
        char* maps[3]; for (int k = 0; k < 3; ++k) maps[k] = map_at();
        std::memset(maps[0], 0, REGION); char* b = maps[0]; for (int k = 1; k < 3; ++k) ::mprotect(maps[k], REGION, PROT_NONE);
        Root* r = (Root*)b; for (int i = 0; i < 2; ++i) { size_t cap = g.below(20); new (r->c[i]) C(mkcap<C>(cap, g.below(cap + 1)), ArenaAlloc<T>(&r->a)); r->cap[i] = cap; r->n[i] = 0; }
        int cur = 0;
        for (int ph = 0; ph < phases && !case_failed(); ++ph) {
            for (size_t s = g.below(14); s-- > 0 && !case_failed();) { step(b, g); check(b, "after an operation"); }
            if (case_failed()) break;
            if (forks && g.chance(15)) {       // another process, another address; the parent's mappings stay inaccessible to it
                ++n_forks; std::fflush(stdout); pid_t pid = ::fork(); if (pid < 0) continue;
                if (!pid) { char* mine = map_at(); for (int k = 0; k < 3; ++k) ::mprotect(maps[k], REGION, PROT_NONE); check(mine, "in another process"); Rng h(seed * 77 + (uint64_t)ph); for (int s = 0; s < 12 && !case_failed(); ++s) { step(mine, h); check(mine, "after an operation in another process"); } std::fflush(stdout); ::_exit(case_failed() ? 1 : 0); }
                int st = 0; ::waitpid(pid, &st, 0); if (!WIFEXITED(st)) { viol("fancy", "shm-child", "the process using the containers at another address died"); break; } if (WEXITSTATUS(st)) { if (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 70) { viol("fancy", "shm-child", "the process using the containers at another address found them damaged"); break; } std::exit(2); }
                check(b, "after the other process");
            }
            int next = (int)g.below(3); if (next == cur) next = (cur + 1) % 3; ::mprotect(maps[next], REGION, PROT_READ | PROT_WRITE); ::mprotect(maps[cur], REGION, PROT_NONE); cur = next; b = maps[cur]; ++n_moves; op_text() = "reading at another address"; check(b, "at another address");
        }
        if (!case_failed()) { r = (Root*)b; for (int i = 0; i < 2; ++i) at(b, i).~C(); size_t held = 0; for (size_t k = 0; k < SLOTS; ++k) held += r->a.used[k] != 0; if (held) viol("fancy", "shm-leak", "%zu blocks of the region still allocated", held); }
        for (int k = 0; k < 3; ++k) ::munmap(maps[k], REGION);
    }
};
int main(int argc, char** argv) {
    install(); for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], "-want")) want() = argv[i + 1];
    auto arg = [&](const char* n, unsigned long long d) -> unsigned long long { for (int i = 1; i + 1 < argc; ++i) if (!std::strcmp(argv[i], n)) return std::strtoull(argv[i + 1], 0, 0); return d; };
    fd_ = ::memfd_create("verif-cb", 0); if (fd_ < 0) { std::FILE* f = std::tmpfile(); if (!f) return 2; fd_ = ::dup(fileno(f)); } if (::ftruncate(fd_, (off_t)REGION)) return 2;
    uint64_t s = arg("-seed", 1); int n = (int)arg("-rounds", 60);
    for (int k = 0; k < n; ++k) { uint64_t q = s * 1000 + (uint64_t)k; bool fk = k % 3 == 0;
        World<boost::circular_buffer<int, ArenaAlloc<int> > >::round("cb<int>", q, 25, fk); World<boost::circular_buffer<Cell, ArenaAlloc<Cell> > >::round("cb<cell>", q, 25, fk);
        World<boost::circular_buffer_space_optimized<int, ArenaAlloc<int> > >::round("so<int>", q, 25, fk); World<boost::circular_buffer_space_optimized<Cell, ArenaAlloc<Cell> > >::round("so<cell>", q, 25, fk); }
    std::printf("\n{\"t\":\"stats\",\"cfg\":\"shared memory\",\"cases\":%llu,\"distinct\":%llu,\"ops\":%llu,\"checks\":%llu,\"relocations\":%llu,\"other_process\":%llu}\n", (unsigned long long)n_rounds, (unsigned long long)n_rounds, (unsigned long long)n_ops, (unsigned long long)n_checks, (unsigned long long)n_moves, (unsigned long long)n_forks);
    return wanted_count() ? 1 : 0;
}

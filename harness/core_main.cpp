// One configuration of the model-based driver: CFG_CONT (cb|so), CFG_ELEM, CFG_ALLOC (mon|std)
#ifdef CFG_FANCY
#include "fancy.hpp"
#endif
#include "modes.hpp"
#if BOOST_CB_ENABLE_DEBUG
namespace boost {
void assertion_failed(char const* e, char const*, char const*, long l) { if (!mon::dbg().n++) std::snprintf(mon::dbg().text, sizeof mon::dbg().text, "%.200s at line %ld", e, l); }
void assertion_failed_msg(char const* e, char const*, char const* f, char const* fn, long l) { assertion_failed(e, f, fn, l); }
}
#endif
#ifndef CFG_ELEM
#define CFG_ELEM mon::ElemN
#endif
#ifndef CFG_SO
#define CFG_SO 0
#endif
#ifndef CFG_STDALLOC
#define CFG_STDALLOC 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
typedef CFG_ELEM Elem;
#ifdef CFG_FANCY
typedef mon::FancyAlloc<Elem> Al;
#define CFG_ALNAME ",fancy pointers>"
#else
typedef std::conditional<CFG_STDALLOC, std::allocator<Elem>, mon::MonAlloc<Elem> >::type Al;
#define CFG_ALNAME (CFG_STDALLOC ? ",std::allocator>" : ",monitored>")
#endif
typedef std::conditional<CFG_SO, boost::circular_buffer_space_optimized<Elem, Al>, boost::circular_buffer<Elem, Al> >::type Cont;
typedef mon::Runner<Cont> R;

int main(int argc, char** argv) {
    mon::install();
    std::string mode = argc > 1 ? argv[1] : "exh";
    auto arg = [&](const char* name, unsigned long long def) -> unsigned long long { for (int i = 2; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return std::strtoull(argv[i + 1], 0, 0); return def; };
    auto sarg = [&](const char* name) -> std::string { for (int i = 2; i + 1 < argc; ++i) if (!std::strcmp(argv[i], name)) return argv[i + 1]; return ""; };
    mon::want() = sarg("-want");
    mon::hang_secs() = (int)arg("-hang", 10);
    unsigned groups = (unsigned)arg("-groups", 1023), shard = (unsigned)arg("-shard", 0), ns = (unsigned)arg("-nshard", 1);
    size_t maxcap = arg("-cap", 4); uint64_t seed = arg("-seed", 1);
    unsigned mask = (unsigned)arg("-mask", mon::F_ELEM | mon::F_ALLOC | mon::F_SRC);
    std::string cfg = std::string(CFG_SO ? "so" : "cb") + "<" + STR(CFG_ELEM) + CFG_ALNAME;
    if (mode == "exh") R::exh(groups, maxcap, arg("-big", 0), shard, ns, arg("-shock", 1), arg("-reduced", 0), (unsigned)arg("-every", 1), seed);
    else if (mode == "pairs") R::pairs(groups, (unsigned)arg("-groups2", groups), maxcap, shard, ns, (unsigned)arg("-every", 1), seed, arg("-big", 0));
    else if (mode == "rand") {
        static const size_t caps[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65535, 65537};
        int ncaps = (int)(sizeof caps / sizeof *caps); unsigned long long nh = arg("-n", 100), steps = arg("-steps", 200); int limit = (int)arg("-ncaps", (unsigned long long)ncaps);
        for (unsigned long long h = shard; h < nh; h += ns) { size_t cap = caps[h % (unsigned)limit]; int st = (int)(cap > 2000 ? steps / 8 + 4 : cap > 300 ? steps / 2 : steps); R::history(seed * 1000003 + h, groups, cap, st, 25); }
    }
    else if (mode == "wide") {      // few operations with large arguments on large containers: a fresh state for each
        static const size_t caps[] = {130, 258, 300, 514, 1026, 1500, 2050, 4100, 5000};
        static const size_t huge[] = {16386, 65538, 70003, 65600, 131200};
        unsigned long long nh = arg("-n", 100), hv = arg("-huge", 12);
        for (unsigned long long h = shard; h < nh; h += ns) R::history(seed * 9000011 + h, groups, hv && h % hv == hv - 1 ? huge[(h / hv) % 5] : caps[h % 9], (int)arg("-steps", 3), 0);
    }
    else if (mode == "fault") R::faults(groups, maxcap, mask, shard, ns, arg("-big", 0), (unsigned)arg("-every", 1), seed);
    else if (mode == "frand") { unsigned long long nh = arg("-n", 100), steps = arg("-steps", 120); for (unsigned long long h = shard; h < nh; h += ns) R::fault_history(seed * 7000003 + h, groups, 1 + h % 12, (int)steps, mask); }
    else if (mode == "replay") { if (!R::replay(sarg("-case"))) return 2; }
    else return 2;
    mon::print_stats(cfg.c_str());
    return mon::wanted_count() ? 1 : 0;
}

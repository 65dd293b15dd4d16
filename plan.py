"""What each check builds and runs.  One function per property; quick and thorough differ in bounds only."""
ASSUMPTIONS = [
    "the verdict covers the executions listed, not every execution",
    "gcc 13 and clang 18 with their sanitizer runtimes, on x86-64 Linux, report what they document",
    "the installed Boost dependencies of the library (config, core, move, concept_check, throw_exception, type_traits) behave as documented",
    "element types obey the documented requirements: the instrumented ones throw only where the fault injector says so",
]
SAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
OPT = ["-O1", "-g1"]
STD = ["-std=c++17"]

class Build:
    def __init__(self, name, src, flags, cxx="clang++", libs=(), nowant=False, wrap=()):
        self.name, self.src, self.flags, self.cxx, self.libs, self.nowant, self.wrap = name, src, STD + flags if not any(f.startswith("-std=") for f in flags) else flags, cxx, list(libs), nowant, list(wrap)
class Job:
    def __init__(self, build, argv, shards=1): self.build, self.argv, self.shards = build, [str(a) for a in argv], shards
class Plan:
    def __init__(self, level, want, rule): self.level, self.want, self.rule, self.jobs = level, want, rule, []
    def add(self, build, argv, shards=1): self.jobs.append(Job(build, argv, shards))
    def builds(self):
        r = []
        for j in self.jobs:
            if j.build not in r: r.append(j.build)
        return r

# ---- configurations of the model-based driver: element type, container, allocator
ELEMS = {"n": "mon::ElemN", "t": "mon::ElemT", "c": "mon::ElemC", "m": "mon::ElemM", "a": "mon::ElemA", "b": "mon::ElemB",
         "i": "int", "s": "std::string", "g": "mon::Big", "u": "mon::uchar", "h": "short", "l": "long long", "d": "double", "p": "int*"}
_cache = {}
def core(cfg, flags=None, cxx="clang++", extra=()):
    """cfg: element letter + 0 (circular_buffer) or 1 (space optimized); a trailing x = std::allocator, f = fancy pointers"""
    flags = SAN if flags is None else flags
    key = (cfg, tuple(flags), cxx, tuple(extra))
    if key not in _cache:
        d = ["-DCFG_ELEM=" + ELEMS[cfg[0]], "-DCFG_SO=" + cfg[1]]
        if cfg[0] == "s" or cfg.endswith("x"): d.append("-DCFG_STDALLOC=1")
        if cfg.endswith("f"): d.append("-DCFG_FANCY")
        _cache[key] = Build("core-%s-%s-%d" % (cfg, cxx.replace("+", "p"), len(_cache)), "core_main.cpp", flags + d + list(extra), cxx)
    return _cache[key]
def prog(name, flags, cxx="clang++", libs=(), nowant=False, wrap=(), tag="", src=None):
    key = (name, tuple(flags), cxx, tag)
    if key not in _cache: _cache[key] = Build("%s-%s%s" % (name.split(".")[0], cxx.replace("+", "p"), tag), src or name, flags, cxx, libs, nowant, wrap)
    return _cache[key]

PUSH, INS, ERASE, CAP, ASSIGN, CTOR, LIN, WRITE, RANGE, OBS = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512
ALL = 1023
RULE_STATE = ("every reachable small state (capacity, size, physical offset; for the space optimized variant also minimum capacity and internal buffer size) "
              "times every operation and argument class, sampled operation pairs, and seeded random histories over three containers, each compared "
              "with an independent reference sequence after every operation; distinct = distinct (state, operation, arguments) seen by one job of each build")
RULE_FAULT = ("for every (state, operation, arguments) the operation is first run to count its throw points (element constructions, copies, moves, assignments, comparisons, "
              "allocations, source iterator steps), then re-run once per point with an exception thrown there; every run counts as one case, distinct = distinct (state, operation, arguments)")

def mix(p, T, groups, cfgs, seed, cap=4, cap_so=3, pair_cfgs=(), rand_cfgs=None, every=40, big=1, rn=66, steps=250, shards=1, bigevery=3):
    """exhaustive sweep of one operation group + pairs ending in that group + random histories over everything"""
    cfgs = cfgs.split()
    for c in cfgs:
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", groups, "-cap", (cap_so if so else cap) + (1 if T else 0), "-big", big, "-every", 1 if T else bigevery * (2 if so else 1), "-seed", seed], shards * (3 if T else 1))
    for c in (pair_cfgs.split() if isinstance(pair_cfgs, str) else pair_cfgs):
        p.add(core(c), ["pairs", "-groups", ALL, "-groups2", groups, "-cap", 3 if T else 2, "-every", max(1, every * (8 if c[1] == "1" else 1) // (20 if T else 1)), "-seed", seed], 4 if T else 2)
    for c in (rand_cfgs.split() if rand_cfgs is not None else cfgs):
        p.add(core(c), ["rand", "-groups", ALL, "-n", rn * (12 if T else 1), "-steps", steps, "-seed", seed], 4 if T else 1)
    wide(p, T, seed, groups, "n0 i0 n1 i1")

def wide(p, T, s, groups, cfgs, n=1, **kw):
    """single histories over containers of hundreds to more than a hundred thousand elements, positions and counts biased to the edges"""
    flags = kw.get("flags", OPT); extra = kw.get("extra", ())
    for c in cfgs.split():
        so = c[1] == "1"; k = (400 if so else 1500) if c[0] in "iuhldp" else (160 if so else 320)
        p.add(core(c, flags, extra=extra), ["wide", "-groups", groups, "-n", int(k * n) * (10 if T else 1), "-huge", 2 if flags is OPT else 12, "-seed", s], 4 if T else 2)

def large(p, T, s, parts=(1, 2, 4)):
    """element counts and byte offsets beyond 2^31 and 2^32, in reserved but unbacked memory"""
    p.want += ",large"
    for k in range(8 if T else 1):
        for part in parts: p.add(prog("large.cpp", ["-O2", "-g1"]), ["-part", part, "-seed", s * 100 + k, "-rounds", 20 if T else 6])

def maxsize(p, T, s, cxx=("clang++",)):
    """requests at and beyond max_size() with limited allocators and 8- to 64-bit size types"""
    p.want += ",maxsize"
    for c in cxx: p.add(prog("maxsize.cpp", SAN if c == "clang++" else ["-O2", "-g1"], c), ["-seed", s])

def plan(prop, tier, seed):
    _cache.clear()
    return globals()[prop](tier == "thorough", seed)

def C01(T, s):
    p = Plan("exploration", "state-push,access,iter,memory,throws,crash", RULE_STATE)
    mix(p, T, PUSH, "n0 t0 c0 m0 i0 s0 n1 t1 c1 m1 i1 s1", s, cap=6, cap_so=5, pair_cfgs="n0 n1 i0 i1", rand_cfgs="n0 t0 i0 n1 c1 i1 s1", every=6)
    large(p, T, s)
    return p
def C02(T, s):
    p = Plan("exploration", "state-insert,access,iter,memory,throws,crash", RULE_STATE)
    mix(p, T, INS, "n0 t0 c0 m0 i0 s0 g0 n1 t1 c1 m1 i1 s1 g1", s, cap=4, cap_so=3, pair_cfgs="n0 n1", rand_cfgs="n0 t0 i0 n1 c1 i1", every=60)
    large(p, T, s)
    return p
def C03(T, s):
    p = Plan("exploration", "state-erase,access,iter,memory,throws,crash", RULE_STATE)
    mix(p, T, ERASE | CAP, "n0 t0 c0 m0 i0 s0 g0 n1 t1 c1 m1 i1 s1 g1", s, cap=5, cap_so=4, pair_cfgs="n0 n1 i0", rand_cfgs="n0 t0 i0 n1 c1 i1", every=20)
    large(p, T, s)
    return p
def C04(T, s):
    p = Plan("exploration", "state-build,access,iter,memory,throws,crash,move", RULE_STATE)
    mix(p, T, CAP | ASSIGN | CTOR, "n0 t0 c0 m0 i0 s0 g0 n1 t1 c1 m1 i1 s1 g1", s, cap=3, cap_so=2, pair_cfgs="n0 n1", rand_cfgs="n0 t0 i0 n1 c1 i1", every=60)
    return p
def C05(T, s):
    p = Plan("exploration", "access,iter,lin,memory,throws,crash", RULE_STATE)
    mix(p, T, OBS | WRITE, "n0 t0 c0 m0 i0 s0 g0 u0 n1 t1 c1 m1 i1 s1 g1", s, cap=8, cap_so=6, pair_cfgs="n0 n1 i0", rand_cfgs="n0 i0 s0 u0 n1 i1 s1", every=6, big=1)
    large(p, T, s)
    return p
def C06(T, s):
    p = Plan("exploration", "iter,crash", "every (container type, capacity, offset, size) with capacity up to the bound: all position pairs for the iterator relations, all standard algorithms compared with the same call on a std::vector; plus iteration checked after every operation of random histories; distinct = distinct layouts")
    b = prog("iter.cpp", SAN)
    for c in ("cb", "so"):
        for part in ("laws", "alg"): p.add(b, ["-cap", 14 if T else 8, "-part", part, "-cont", c])
    for c in "n0 s0 i1".split(): p.add(core(c), ["rand", "-groups", ALL, "-n", 66 * (8 if T else 1), "-steps", 250, "-seed", s], 2)
    large(p, T, s)
    wide(p, T, s, OBS | WRITE, "n0 i1")
    return p
def C07(T, s):
    p = Plan("exploration", "state-lin,lin,access,memory,throws,crash", RULE_STATE)
    mix(p, T, LIN, "n0 t0 c0 m0 i0 s0 g0 n1 t1 c1 m1 i1 s1 g1", s, cap=12, cap_so=7, pair_cfgs="n0 n1 t0 i0", rand_cfgs="n0 t0 i0 n1 c1 i1", every=4)
    large(p, T, s)
    return p
def C08(T, s):
    p = Plan("exploration", "lifetime,crash", RULE_STATE + "; every element carries a live-object registry entry, so each construction, assignment, read and destruction is an event that is checked")
    for c in "n0 t0 c0 m0 a0 b0 n1 t1 c1 m1 a1 b1".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else (2 if so else 3), "-reduced", 0 if T or c == "n0" else 1], 4 if T else 1)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 33 * (12 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    for c in "n0 t0 c1 t1".split():
        p.add(core(c), ["pairs", "-cap", 2, "-every", 3 if T else 150, "-seed", s], 4 if T else 1)
        p.add(core(c), ["fault", "-cap", 1 if c[1] == "1" and not T else 2, "-every", 1 if T else 3, "-seed", s], 4 if T else 1)
    wide(p, T, s, ALL, "n0 t1")
    return p
def C10(T, s):
    p = Plan("fault_enumeration", "exc,exc-state,lifetime,alloc,memory,throws,crash", RULE_FAULT)
    for c in "n0 t0 c0 m0 a0 b0".split(): p.add(core(c), ["fault", "-cap", 3 if T else 2], 4 if T else 1)
    for c in "n1 t1 c1 m1".split():
        p.add(core(c), ["fault", "-cap", 1], 1)
        p.add(core(c), ["fault", "-cap", 3 if T else 2, "-every", 4 if T else 25, "-seed", s], 4 if T else 1)
    for c in "t0 c0 t1".split(): p.add(core(c), ["frand", "-n", 2000 if T else 150, "-seed", s], 4 if T else 1)
    p.add(core("t0"), ["fault", "-cap", 1, "-big", 1, "-every", 3 if T else 30, "-seed", s], 4 if T else 2)
    for c in "n0 t0 c0".split(): p.add(core(c), ["fault", "-cap", 5 if T else 4, "-every", 5 if T else 60, "-seed", s + 1], 4 if T else 2)
    return p
def C11(T, s):
    p = Plan("fault_enumeration", "strong,nothrow,crash,throws", RULE_FAULT)
    for c in "n0 t0 c0 m0 a0 b0".split(): p.add(core(c), ["fault", "-cap", 3 if T else 2], 4 if T else 1)
    for c in "n1 t1 c1 m1".split():
        p.add(core(c), ["fault", "-cap", 1], 1)
        p.add(core(c), ["fault", "-cap", 3 if T else 2, "-every", 4 if T else 25, "-seed", s], 4 if T else 1)
    for c in "n0 t0 c0 b0".split(): p.add(core(c), ["fault", "-groups", CAP | ASSIGN | CTOR, "-cap", 5 if T else 4, "-every", 5 if T else 40, "-seed", s + 1], 4 if T else 2)
    for c in "n0 t0 n1".split(): p.add(core(c), ["exh", "-groups", ALL, "-cap", 3 if T else 2, "-big", 1, "-reduced", 1, "-every", 1 if T else 8, "-seed", s], 2)
    for std in ("-std=c++20", "-std=c++23"):
        for c in "t0 t1".split(): p.add(core(c, SAN + [std]), ["fault", "-cap", 1 if c[1] == "1" else 2, "-groups", CAP | ASSIGN | CTOR | PUSH], 1)
        p.add(prog("nothrow.cpp", SAN + [std], tag=std[-2:]), [])
    b = prog("nothrow.cpp", SAN); p.add(b, [])
    return p
def C12(T, s):
    p = Plan("exploration", "alloc,memory,crash", RULE_STATE + "; the allocator records every block with its size, owner and guard bytes, so each allocation and deallocation is a checked event")
    for c in "n0 t0 c0 m0 i0 n1 t1 c1 i1".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else (2 if so else 3), "-reduced", 0 if T or c == "n0" else 1], 4 if T else 1)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 33 * (12 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    for c in "n0 t0 c1".split(): p.add(core(c), ["fault", "-cap", 2, "-every", 1 if T else (4 if c[1] == "0" else 30), "-seed", s], 4 if T else 1)
    for c in "g0 g1".split(): p.add(core(c), ["exh", "-groups", ALL, "-cap", 3 if T else 2, "-reduced", 1], 2); p.add(core(c), ["fault", "-cap", 1], 1)
    maxsize(p, T, s, ("clang++", "g++"))
    wide(p, T, s, ALL, "n0 i0 n1 i1")
    return p
def C13(T, s):
    p = Plan("exploration", "move,state-build,crash", RULE_STATE + "; copies, moves and throw points of every operation are counted by the element type")
    for c in "n0 t0 m0 a0 b0 c0 s0 n1 t1 m1 a1 s1".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else (2 if so else 3), "-reduced", 0 if T or c == "n0" else 1], 4 if T else 1)
        p.add(core(c), ["exh", "-groups", ASSIGN | CTOR | CAP, "-cap", (4 if so else 5) if T else (3 if so else 4), "-reduced", 1], 4 if T else 1)
    for c in "n0 m0 n1 m1".split(): p.add(core(c), ["rand", "-groups", ALL, "-n", 33 * (12 if T else 1), "-steps", 250, "-seed", s], 2)
    for c in "t0 n0".split(): p.add(core(c, SAN + ["-std=c++20"]), ["exh", "-groups", ALL, "-cap", 3 if T else 2, "-reduced", 0 if T else 1], 1)
    wide(p, T, s, ALL, "n0 m0 m1")
    return p
def C14(T, s):
    p = Plan("exploration", "cost,crash", "executed basic blocks of every operation at sizes 256, 4096 and 65536 in four layouts, judged by growth (constant or linear), and element operations of every operation in every small state and in random histories judged against the documented complexity; distinct = distinct (operation, layout) rows and (state, operation) pairs")
    b = prog("growth.cpp", ["-O0", "-g1", "-fsanitize-coverage=trace-pc"])
    for part in (1, 2, 4, 8): p.add(b, ["-part", part])
    for c in "n0 c0 t0 n1 c1".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else (2 if so else 3), "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 6, "-seed", s], 4 if T else 2)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 66 * (8 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    wide(p, T, s, ALL, "n0 n1")
    return p
def C15(T, s):
    p = Plan("exploration", "stable,crash", RULE_STATE + "; before every operation an iterator and the address of every element are recorded, and afterwards each one the documentation keeps valid must still designate the same element at the right position")
    for c in "n0 t0 c0 m0 i0 s0".split():
        p.add(core(c), ["exh", "-groups", ALL, "-cap", 5 if T else 3, "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 4, "-seed", s], 4 if T else 2)
        p.add(core(c), ["exh", "-groups", PUSH | ERASE | LIN | CAP, "-cap", 7 if T else 5], 4 if T else 1)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 66 * (8 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    wide(p, T, s, PUSH | INS | ERASE | LIN | CAP, "n0 t0 i0")
    return p
def C16(T, s):
    p = Plan("exploration", "state-push,state-insert,state-erase,state-build,state-lin,access,iter,lin,throws,memory,crash", RULE_STATE)
    for c in "n1 t1 c1 m1 i1 s1 g1".split():
        p.add(core(c), ["exh", "-groups", ALL, "-cap", 4 if T else 2, "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 12, "-seed", s], 6 if T else 2)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 99 * (12 if T else 1), "-steps", 300, "-seed", s], 6 if T else 2)
    for c in "n1 i1".split(): p.add(core(c), ["pairs", "-cap", 2, "-every", 8 if T else 250, "-seed", s], 8 if T else 2)
    large(p, T, s, (2, 8))
    wide(p, T, s, ALL, "n1 t1 i1")
    return p
def C17(T, s):
    p = Plan("exploration", "mem-policy,alloc,strong,throws,crash", RULE_STATE + "; the allocator reports how many elements' memory each container holds after every operation")
    for c in "n1 t1 c1 m1 i1".split():
        p.add(core(c), ["exh", "-groups", ALL, "-cap", 4 if T else 2, "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 8, "-seed", s], 6 if T else 2)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 66 * (12 if T else 1), "-steps", 300, "-seed", s], 6 if T else 2)
    for c in "n1 c1".split(): p.add(core(c), ["fault", "-cap", 2, "-groups", CAP | ASSIGN | CTOR, "-every", 2 if T else 20, "-seed", s], 4 if T else 1)
    b = prog("growth.cpp", ["-O0", "-g1", "-fsanitize-coverage=trace-pc"])
    for part in (8, 16): p.add(b, ["-part", part])
    large(p, T, s, (8,))
    wide(p, T, s, ALL, "n1 t1 i1")
    return p
def C18(T, s):
    p = Plan("exploration", "cmp,crash", "pairs of containers over a small alphabet in every capacity and offset, plus long random pairs differing in one place or by a prefix; all six operators in both argument orders against std::vector's, including NaN and throwing comparisons; distinct = distinct pairs")
    b = prog("cmp.cpp", SAN)
    for k in range(8 if T else 4): p.add(b, ["-rounds", 2000 if T else 60, "-seed", s * 100 + k])
    return p
def C19(T, s):
    p = Plan("exploration", "threads,crash", "threads reading one container, threads each changing their own container, and producers and consumers sharing one under a mutex, with injected delays, under ThreadSanitizer and AddressSanitizer; recorded logs are checked offline for exactly-once and order; every round counts as a case")
    t = prog("threads.cpp", ["-O1", "-g1", "-fsanitize=thread", "-pthread"], tag="-tsan"); a = prog("threads.cpp", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-pthread"], tag="-asan")
    for k in range(24 if T else 4): p.add(t, ["-rounds", 100 if T else 30, "-seed", s * 100 + k])
    for k in range(4 if T else 1): p.add(a, ["-rounds", 100 if T else 30, "-seed", s * 100 + 50 + k])
    return p
def C20(T, s):
    p = Plan("exploration", "fancy,access,state-push,state-insert,state-erase,state-build,state-lin,iter,lin,memory,alloc,lifetime,throws,crash", RULE_STATE + "; pointers are objects that check every operation against the block they point into; and containers living in a memory region that is mapped at three addresses and unmapped from the others between operations")
    for c in "n0f n1f".split():
        so = c[1] == "1"
        p.add(core(c, OPT), ["exh", "-groups", ALL, "-cap", (2 if so else 3) + (1 if T else 0)], 8 if T else 4)
        p.add(core(c, OPT), ["rand", "-groups", ALL, "-n", 33 * (8 if T else 1), "-steps", 200, "-seed", s], 4 if T else 2)
        p.add(core(c, OPT), ["fault", "-cap", 1 if so else 2, "-seed", s], 2)
    b = prog("shm.cpp", OPT)
    for k in range(8 if T else 2): p.add(b, ["-rounds", 600 if T else 60, "-seed", s * 100 + k])
    wide(p, T, s, ALL, "n0f n1f", n=0.25)
    return p
def C21(T, s):
    p = Plan("fault_enumeration", "range,state-insert,state-build,lifetime,throws,crash", RULE_STATE + "; the source iterators count every read and step, and are enumerated as fault points")
    for c in "n0 t0 c0 m0 i0 n1 c1 i1".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", RANGE, "-cap", (4 if so else 5) if T else (2 if so else 3), "-big", 1, "-shock", 0, "-every", 1 if T else 4, "-seed", s], 4 if T else 2)
    for c in "n0 c0 i0 n1 i1".split(): p.add(core(c), ["fault", "-groups", RANGE, "-mask", 4, "-cap", 3 if T else 2, "-every", 1 if T or c[1] == "0" else 6, "-seed", s], 4 if T else 1)
    wide(p, T, s, RANGE, "n0 c0 i0 n1 i1")
    return p
def C22(T, s):
    p = Plan("exploration", "selfref,crash", "every (container, capacity, offset, size, operation, position, count, referred element); the outcome is compared with the same operation on a copy of the argument; distinct = cases, all different")
    b = prog("selfref.cpp", SAN); o = prog("selfref.cpp", ["-O2", "-g1"], cxx="g++", tag="-gcc")
    for part in (1, 2, 4, 8, 16): p.add(b, ["-cap", 7 if T else 5, "-part", part])
    for part in (1, 2, 4, 8, 16): p.add(o, ["-cap", 9 if T else 6, "-part", part])
    return p

def trace(cxx, std, opt, dbg=False, extra=(), tag="", wrap=()):
    fl = ["-std=" + std, opt, "-g1"] + (["-DBOOST_CB_ENABLE_DEBUG=1", "-DBOOST_ENABLE_ASSERT_HANDLER"] if dbg else []) + list(extra)
    return prog("trace03.cpp", fl, cxx, tag="-" + std.replace("c++", "") + opt + ("-debug" if dbg else "") + tag, nowant=True, wrap=wrap)
def C24(T, s):
    p = Plan("exploration", "trace,digest,crash", "seeded operation histories of seven containers, run by the same C++03 program built with each compiler, language standard, optimisation level and debug setting; each run is compared with a reference sequence after every operation, and the digest of everything a history observed must be the same in every build")
    seeds = [s * 1000 + k for k in range(24 if T else 3)]
    bs = [trace(c, std, o, dbg) for c in ("g++", "clang++") for (std, o, dbg) in (("c++03", "-O0", False), ("c++03", "-O2", True), ("c++11", "-O3", False), ("c++14", "-O2", False), ("c++17", "-O1", True), ("c++20", "-O2", False), ("c++23", "-Os", False))]
    bs += [trace("g++", "c++17", "-O2", extra=["-fno-exceptions"], tag="-noexc"), trace("g++", "c++11", "-O2", extra=["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_CONCEPT_CHECKS"], tag="-glibcxxdebug"), trace("clang++", "c++17", "-O2", extra=["-DNDEBUG", "-fno-rtti"], tag="-ndebug-nortti"),
           trace("clang++", "c++20", "-O1", extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], tag="-asan"), trace("g++", "c++03", "-O1", extra=["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], tag="-asan")]
    bs += [trace("g++", "gnu++17", "-O2"), trace("clang++", "gnu++2b", "-O1"), trace("clang++", "c++26", "-O2"), trace("g++", "gnu++98", "-O1"), trace("g++", "c++20", "-O2", extra=["-funsigned-char", "-fwrapv", "-fshort-enums"], tag="-uchar")]
    if T: bs += [trace(c, std, o, dbg) for c in ("g++", "clang++") for std in ("c++03", "c++11", "c++14", "c++17", "c++20", "c++23") for o in ("-O0", "-O3") for dbg in (False, True)]
    for b in bs:
        for k in seeds: p.add(b, ["-seed", k, "-n", 60 if T else 40, "-steps", 200])
    return p

def C09(T, s):
    p = Plan("exploration", "memory,lifetime,trace,crash", RULE_STATE + "; run under AddressSanitizer and UndefinedBehaviorSanitizer of both compilers with guard zones around every block and poisoned slots where no element lives, under MemorySanitizer, and under valgrind memcheck with uninstrumented code")
    G2 = ["-O2", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    for c in "i0 i1 u0 d0 p0 h0 l0 g0 s0".split():
        so = c[1] == "1"
        p.add(core(c), ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else 2, "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 8, "-seed", s], 4 if T else 1)
        p.add(core(c), ["rand", "-groups", ALL, "-n", 66 * (12 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    for c in ("n0", "n1", "t0"):
        p.add(core(c, G2, "g++"), ["exh", "-groups", ALL, "-cap", 3 if T else 2, "-big", 1, "-reduced", 0 if T else 1, "-every", 1 if T else 8, "-seed", s], 4 if T else 1)
        p.add(core(c, G2, "g++"), ["rand", "-groups", ALL, "-n", 66 * (12 if T else 1), "-steps", 250, "-seed", s], 4 if T else 1)
    for k in range(16 if T else 2): p.add(trace("clang++", "c++17", "-O1", extra=["-fsanitize=memory", "-fno-omit-frame-pointer"], tag="-msan"), ["-seed", s * 1000 + k, "-n", 100 if T else 40, "-steps", 200])
    vg = ["valgrind", "-q", "--error-exitcode=79", "--leak-check=full", "--errors-for-leak-kinds=definite"]
    for k in range(8 if T else 2): p.add(trace("g++", "c++17", "-O1", tag="-valgrind", wrap=vg), ["-seed", s * 1000 + 500 + k, "-n", 20 if T else 6, "-steps", 150])
    for c in ("i0", "i1"):
        b = core(c, OPT); b.wrap = vg
        p.add(b, ["rand", "-groups", ALL, "-n", 100 if T else 12, "-steps", 200, "-seed", s], 4 if T else 1)
    wide(p, T, s, ALL, "u0 i0 i1", n=0.2, flags=SAN)
    p.want += ",large"
    for part in (8, 2): p.add(prog("large.cpp", ["-O1", "-g1", "-fsanitize=undefined", "-fno-sanitize-recover=all"], tag="-ubsan"), ["-part", part, "-seed", s * 100, "-rounds", 6 if T else 2])
    maxsize(p, T, s)
    return p

DBG = ["-DBOOST_CB_ENABLE_DEBUG=1", "-DBOOST_ENABLE_ASSERT_HANDLER"]
def C23(T, s):
    p = Plan("exploration", "debug,state-push,state-insert,state-erase,state-build,state-lin,access,iter,lin,lifetime,stable,throws,crash",
             "with the debug support on: " + RULE_STATE + "; every iterator taken before an operation is probed after it, the assertion handler must be called exactly for the invalidated ones; every kind of misuse in every small state, each in a child process; random histories of many live iterators over several containers")
    fl = SAN + ["-fno-sanitize=null,pointer-overflow"]  # probing an invalidated iterator goes on after the report and forms the stale reference
    for c in "n0 t0 c0 i0 m0 n1 i1 m1".split():
        so = c[1] == "1"; b = core(c, fl, extra=DBG)
        p.add(b, ["exh", "-groups", ALL, "-cap", (3 if so else 4) if T else (2 if so else 3), "-reduced", 0 if T else 1, "-every", 1 if T else 2, "-big", 1, "-seed", s], 4 if T else 2)
        p.add(b, ["rand", "-groups", ALL, "-n", 33 * (12 if T else 1), "-steps", 200, "-seed", s], 4 if T else 1)
        if c in ("n0", "t0", "n1"): p.add(b, ["fault", "-cap", 1 if so else 2, "-every", 1 if T else 4, "-seed", s], 2); p.add(b, ["frand", "-n", 1000 if T else 60, "-seed", s], 2 if T else 1)
    m = prog("debug.cpp", ["-O0"] + DBG, tag="-misuse"); r = prog("debug.cpp", fl + DBG, tag="-registry")
    p.add(m, ["-part", "misuse", "-cap", 5 if T else 3], 8)
    p.add(r, ["-part", "registry", "-n", 20000 if T else 1200, "-steps", 300, "-seed", s], 8 if T else 3)
    wide(p, T, s, ALL, "n0 n1", n=0.1, flags=fl, extra=DBG)
    return p

def C25(T, s):
    p = Plan("exploration", "types,crash", "seeded histories over containers of 48 element types, each compared with a reference sequence after every operation; distinct = histories, all with different seeds")
    for z in (1, 2, 3, 4):
        for k in range(4 if T else 1):
            p.add(prog("zoo.cpp", SAN + ["-DZOO=%d" % z], tag="-%d" % z), ["-n", 60 if T else 12, "-steps", 200, "-seed", s * 10 + k])
            p.add(prog("zoo.cpp", ["-O2", "-g1", "-DZOO=%d" % z], "g++", tag="-%d" % z), ["-n", 200 if T else 30, "-steps", 200, "-seed", s * 10 + k + 7])
    return p

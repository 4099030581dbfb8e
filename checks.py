"""The checks: which drivers produce the traces of a property, which specifications judge them."""
ASAN = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer"
WRAP = "-Wl," + ",".join("--wrap=pthread_" + f for f in (
    "mutex_lock", "mutex_trylock", "mutex_unlock", "rwlock_rdlock", "rwlock_wrlock", "rwlock_tryrdlock", "rwlock_trywrlock", "rwlock_unlock"))
LISTW = ",--wrap=_ZNSt8__detail15_List_node_base7_M_hookEPS0_,--wrap=_ZNSt8__detail15_List_node_base9_M_unhookEv,--wrap=_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"
FLAVORS = {   # compiler, flags, libraries
    "asan":  ("g++", ASAN, ""),
    "rel":   ("g++", "-O2 -DNDEBUG", ""),
    "port":  ("g++", "-O1 -DNDEBUG -DGTL_HAVE_SSE2=0 -DGTL_HAVE_SSSE3=0 -DGTL_DISABLE_MIX=1", ""),
    "mt":    ("g++", ASAN, WRAP),
    "mtrel": ("g++", "-O2 -DNDEBUG", WRAP),
    "mtl":   ("g++", ASAN, WRAP + LISTW),
    "tsanl": ("g++", "-O1 -g1 -fsanitize=thread", WRAP + LISTW),
    "tsan":  ("g++", "-O1 -g1 -fsanitize=thread", WRAP),
    "leak":  ("g++", "-O2 -DNDEBUG -DVT_WRAP_MALLOC", "-Wl,--wrap=malloc,--wrap=free"),
    "nomix": ("g++", "-O1 -mssse3 -DGTL_DISABLE_MIX=1", ""),
}


def B(src, flavor, *defs):
    return (src, tuple(defs), flavor)


def hash_jobs(profile, traces, events, parts=(0, 1, 2, 3), src="hash_a.cpp"):
    """each configuration group once under AddressSanitizer with assertions, and once more with the
       portable (8-wide) group implementation or the unmixed-hash SSSE3 build"""
    out = []
    for p in parts:
        out.append({"build": B(src, "asan", "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events, "shard": 0})
    for i, p in enumerate(parts):
        out.append({"build": B(src, "port" if i % 2 else "nomix", "-DPART=%d" % p), "profile": profile, "traces": traces,
                    "events": events, "shard": 1})
    return out


SWISS = [{"module": "SwissTable", "cfg": "SwissTable4.cfg", "min_states": 7000, "workers": 3},
         {"module": "SwissTable", "cfg": "SwissTable6k.cfg", "min_states": 50000, "workers": 4, "thorough": True},
         {"module": "SwissTable", "cfg": "SwissTable4x.cfg", "min_states": 400000, "workers": 6, "heap": "8g", "thorough": True}]
def tomb_jobs(src="hash_a.cpp", parts=(0, 2, 3), traces=10, events=1500):
    """histories that fill tables, leave them full of tombstones and fill them again"""
    return [{"build": B(src, "nomix", "-DPART=%d" % p) if p % 2 == 0 else B(src, "port", "-DPART=%d" % p), "profile": "tmb",
             "traces": traces, "events": events, "shard": 2} for p in parts]


def big_jobs(src, profile, parts, flavors, traces=2, events=160, **kw):
    """large containers (2000..6000 keys): batches of insertions and erasures with single calls in between"""
    return [dict({"build": B(src, flavors[i % len(flavors)], "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events,
                  "shard": 10}, **kw) for i, p in enumerate(parts)]


SEQ = ["the drivers call the public interface only; element types, hash functions and allocators are the drivers' own"]
CHECKS = {
    "P01": {"spec": "HashTrace", "jobs": hash_jobs("p01", 14, 1500) + tomb_jobs() + big_jobs("hash_a.cpp", "p01", (0, 1, 2, 3), ("nomix", "port")), "must": ["ins", "asg", "idx", "get", "erk", "eri", "insl", "it"],
            "models": SWISS, "assumptions": SEQ},
    "P02": {"spec": "HashTrace", "jobs": hash_jobs("p02", 14, 1500) + tomb_jobs() + big_jobs("hash_a.cpp", "p02", (0, 1, 2, 3), ("nomix", "port")), "must": ["resv", "reh", "cap", "churn", "bins", "ber", "adr"],
            "models": SWISS, "assumptions": SEQ},
    "P03": {"spec": "HashTrace", "jobs": hash_jobs("p03", 14, 1500) + tomb_jobs() + big_jobs("hash_a.cpp", "p03", (0, 1, 2, 3), ("nomix", "port")), "must": ["trav", "err", "eif", "held", "sufx", "adr", "it"],
            "models": SWISS, "assumptions": SEQ},
    "P04": {"spec": "HashTrace", "jobs": hash_jobs("p04", 16, 1500) + big_jobs("hash_a.cpp", "p04", (0, 1, 2, 3), ("nomix", "port")), "must": ["cpy", "mov", "swp", "eq", "ext", "inn", "mrg", "nmov", "nswp"],
            "assumptions": SEQ},
    "P07": {"spec": "HashTrace", "jobs": hash_jobs("p07", 16, 1200, src="hash_b.cpp") + big_jobs("hash_b.cpp", "p07", (0, 1, 2, 3), ("nomix", "port")), "assumptions": SEQ,
            "must": ["ifc", "modif", "erif", "upsert", "each", "subs", "ersub", "tog", "cpy", "mov", "swp", "eq", "mrg", "ext", "inn"]},
}


def btree_jobs(profile, traces, events, parts):
    return [{"build": B("btree_a.cpp", "asan", "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events, "shard": 0} for p in parts] + \
           [{"build": B("btree_a.cpp", "rel", "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events, "shard": 1} for p in parts]


# lock protocol of the parallel containers; the "Bad" models are the protocols before the repairs, which TLC must refute
PLOCKS = [{"module": "ParLocks", "cfg": "ParLocks.cfg", "min_states": 20000, "workers": 2},
          {"module": "ParLocks", "cfg": "ParLocksBad1.cfg", "expect": "ExactlyOnce", "workers": 1},
          {"module": "ParLocks", "cfg": "ParLocksU.cfg", "min_states": 140000, "workers": 4, "thorough": True},
          {"module": "ParLocks", "cfg": "ParLocksBad2.cfg", "expect": "deadlock", "workers": 1},
          {"module": "ParLocks", "cfg": "ParLocks4.cfg", "min_states": 340000, "workers": 4, "thorough": True}]
LRU = [{"module": "LruShard", "cfg": "LruShard.cfg", "min_states": 30000, "workers": 2},
       {"module": "LruShard", "cfg": "LruShardBad.cfg", "expect": "Results", "workers": 1},
       {"module": "LruShard", "cfg": "LruShard3.cfg", "min_states": 1500000, "workers": 6, "heap": "8g", "thorough": True}]
BNODE = [{"module": "BTreeNode", "cfg": "BTreeNode3.cfg", "min_states": 400, "workers": 3},
         {"module": "BTreeNode", "cfg": "BTreeNode4.cfg", "min_states": 100, "workers": 2},
         {"module": "BTreeNode", "cfg": "BTreeNode3x.cfg", "min_states": 6000, "workers": 4, "thorough": True},
         {"module": "BTreeNode", "cfg": "BTreeNode4x.cfg", "min_states": 4000, "workers": 4, "thorough": True}]
BT = ["ins", "insl", "find", "has", "cnt", "lb", "ub", "eqr", "erk", "eri", "err", "it", "bins", "ber"]
CHECKS.update({
    "P11": {"spec": "BTreeTrace", "jobs": btree_jobs("p11", 12, 2000, (0, 1)) + big_jobs("btree_a.cpp", "p11", (0, 1), ("rel",), 4), "assumptions": SEQ, "must": BT + ["at", "idx"], "models": BNODE},
    "P12": {"spec": "BTreeTrace", "jobs": btree_jobs("p11", 14, 2000, (2, 3)) + big_jobs("btree_a.cpp", "p11", (2, 3), ("rel",), 4), "assumptions": SEQ, "must": BT},
    "P13": {"spec": "BTreeTrace", "jobs": btree_jobs("p13", 8, 1500, (0, 1, 2, 3)) + big_jobs("btree_a.cpp", "p13", (0, 1, 2, 3), ("rel",)), "assumptions": SEQ,
            "must": ["cpy", "mov", "swp", "cmp", "extk", "exti", "inn", "mrg", "nmov", "eif", "new"]},
})


def par_jobs(profile, traces, events, parts=(0, 1, 2, 3)):
    """random programs under random schedules, and every schedule of small programs up to a bound on preemptions"""
    out = []
    for p in parts:
        b = B("par_a.cpp", "mt", "-DPART=%d" % p)
        out.append({"build": b, "profile": profile, "traces": traces, "events": events, "shard": 0})
        for s in (1, 2):
            out.append({"build": b, "profile": profile + "dfs", "traces": max(2, traces // 4), "events": events // 2, "shard": s})
        if profile == "p09":
            out.append({"build": b, "profile": "p09x", "traces": 5, "events": 900, "shard": 4})
        out.append({"build": B("par_a.cpp", "tsan", "-DPART=%d" % p), "profile": profile + "free", "traces": max(3, traces // 4), "events": events, "shard": 3})
    return out


CHECKS.update({
    "P08": {"spec": "LinTrace", "jobs": par_jobs("p08", 24, 700), "chunks": 8, "assumptions": SEQ, "models": PLOCKS[:3],
            "must": ["call", "ret", "cbin", "cbout", "quiet", "new"], "corrupt": ["ret"]},
    "P09": {"spec": "LinTrace", "jobs": par_jobs("p09", 10, 600), "chunks": 8, "assumptions": SEQ, "models": PLOCKS,
            "must": ["call", "ret", "cbin", "cbout", "quiet", "new"], "corrupt": ["ret"]},
})


def vec_jobs(profile, traces, events, parts=(0, 1)):
    return [{"build": B("vec_a.cpp", f, "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events, "shard": s, "spec": "VecTrace"}
            for s, f in enumerate(("asan", "leak")) for p in parts]


CHECKS.update({
    "P14": {"spec": "VecTrace", "jobs": vec_jobs("p14", 26, 500), "assumptions": SEQ,
            "must": ["push", "pushn", "pop", "ins", "insr", "er", "resz", "asg", "asgr", "clr", "shr", "resv", "set", "get", "it", "new", "cpy", "mov", "swp",
                     "cmp", "eif", "erv", "compact", "fin"]},
})


def bit_jobs(profile, traces, events):
    return [{"build": B("bit_a.cpp", f), "profile": profile, "traces": traces, "events": events, "shard": s} for s, f in enumerate(("asan", "leak"))]


CHECKS.update({
    "P15": {"spec": "BitTrace", "jobs": bit_jobs("p15", 700, 500), "assumptions": SEQ,
            "must": ["new", "newl", "resz", "cpy", "swp", "bit", "all", "bin", "res", "shl", "shr", "putn", "see", "q", "ff", "fn", "walk", "rel", "hash", "str",
                     "hex", "ull", "blk"]},
    "P16": {"spec": "BitTrace", "jobs": bit_jobs("p16", 700, 500), "assumptions": SEQ,
            "must": ["bit", "all", "bin", "shl", "shr", "put", "putn", "see", "get", "q", "ff", "fn", "walk", "rel", "hex"]},
})


def cache_jobs(part, traces, events):
    b, f = B("cache_a.cpp", "mtl", "-DPART=%d" % part), B("cache_a.cpp", "tsanl", "-DPART=%d" % part)
    return [{"build": b, "profile": "p17", "traces": traces, "events": events, "shard": 0},
            {"build": b, "profile": "p17mt", "traces": traces, "events": events, "shard": 1},
            {"build": b, "profile": "p17dfs", "traces": traces // 2, "events": events, "shard": 2},
            {"build": f, "profile": "p17free", "traces": traces // 3, "events": events, "shard": 3}]


CHECKS.update({
    "P17": {"spec": "CacheTrace", "jobs": cache_jobs(0, 24, 500), "assumptions": SEQ, "must": ["call", "ret", "quiet", "lim", "new"], "corrupt": ["quiet", "ret"], "models": LRU},
    "P18": {"spec": "CacheTrace", "jobs": cache_jobs(1, 14, 500), "assumptions": SEQ, "must": ["call", "ret", "fin", "fout", "quiet", "lim", "new"],
            "corrupt": ["quiet", "ret"]},
})


def intr_jobs(traces, events):
    b = B("intr_a.cpp", "mt")
    return [{"build": b, "profile": "p19", "traces": traces, "events": events, "shard": 0},
            {"build": b, "profile": "p19mt", "traces": traces, "events": events, "shard": 1},
            {"build": b, "profile": "p19dfs", "traces": traces, "events": events, "shard": 2},
            {"build": B("intr_a.cpp", "tsan"), "profile": "p19free", "traces": traces // 2, "events": events, "shard": 3}]


CHECKS.update({
    "P19": {"spec": "RefcountTrace", "jobs": intr_jobs(60, 600), "assumptions": SEQ, "corrupt": ["quiet", "copy", "move", "swap", "reset"],
            "models": [{"module": "RefcountMC", "cfg": "RefcountMC.cfg", "min_states": 60, "workers": 1}],
            "must": ["make", "copy", "move", "swap", "reset", "point", "det", "adopt", "dync", "dynm", "write", "assign", "cmp", "less", "hash", "relb", "rele",
                     "dtor", "share", "use", "quiet", "fin"]},
})


CHECKS.update({
    "P20": {"spec": "SoaTrace", "assumptions": SEQ, "must": ["new", "ins", "resz", "resv", "clr", "set", "put", "row", "view", "col", "size", "all", "sort"],
            "jobs": [{"build": B("soa_a.cpp", f), "profile": "p20", "traces": 40, "events": 300, "shard": s} for s, f in enumerate(("asan", "leak", "rel"))]},
})
CHECKS.update({
    "P21": {"spec": "UtilsTrace", "assumptions": SEQ,
            "must": ["enter", "made", "act", "sthr", "dis", "leave", "left", "chg", "rep", "see", "tnew", "touch", "traw", "tfrom", "tres", "tcmp", "pcmp", "tor",
                     "tors", "tget", "tset", "bs", "bsg"], "corrupt": ["left", "tcmp", "bs", "rep"],
            "jobs": [{"build": B("util_a.cpp", f), "profile": "p21", "traces": 120, "events": 900, "shard": s} for s, f in enumerate(("asan", "leak", "rel"))]},
})


def fault_jobs(src, profile, traces, events, parts=(0, 1, 2, 3), spec="HashTrace", flavors=("asan", "leak")):
    return [{"build": B(src, f, "-DPART=%d" % p), "profile": profile, "traces": traces, "events": events, "shard": s, "spec": spec}
            for s, f in enumerate(flavors) for p in parts]


CHECKS.update({
    "P05": {"spec": "HashTrace", "jobs": fault_jobs("hash_a.cpp", "p05", 8, 900) + fault_jobs("hash_b.cpp", "p05", 4, 700) +
            fault_jobs("btree_a.cpp", "p05", 6, 900, spec="BTreeTrace") + vec_jobs("p05", 14, 500) +
            big_jobs("hash_a.cpp", "p05", (0, 1, 2, 3), ("leak",), spec="HashTrace") + big_jobs("btree_a.cpp", "p05", (0, 1, 2, 3), ("leak",), spec="BTreeTrace"), "assumptions": SEQ, "chunks": 8,
            "must": ["acct", "fin", "cpy", "mov", "swp", "mrg", "ext", "inn", "extk", "push", "insr", "er", "asg"],
            "corrupt": ["acct"]},
    "P06": {"spec": "HashTrace", "jobs": fault_jobs("hash_a.cpp", "p06", 12, 900) + fault_jobs("hash_b.cpp", "p06", 8, 900) + vec_jobs("p06", 24, 500),
            "assumptions": SEQ, "chunks": 8, "must": ["thr", "acct", "fin"], "corrupt": ["acct", "fin"]},
    "P10": {"spec": "HashTrace", "jobs": fault_jobs("hash_c.cpp", "p10", 14, 1000, parts=(0, 1, 2), flavors=("asan", "leak", "port")) +
            big_jobs("hash_c.cpp", "p10", (0, 1, 2), ("leak", "port", "asan"), spec="HashTrace"),
            "assumptions": SEQ, "must": ["dmp", "lod", "lodx", "ins", "erk", "resv", "it"]},
})
CHECKS.update({
    "P22": {"spec": "HetTrace", "jobs": fault_jobs("het_a.cpp", "p22", 6, 700, spec="HetTrace", flavors=("asan", "rel", "nomix")), "assumptions": SEQ,
            "must": ["hsh", "get", "ins", "asg", "idx", "erk", "ext", "inn", "ifc", "modif", "erif", "upsert", "tog", "mrg", "eq"]},
})
CHECKS.update({
    "P23": {"spec": "ListsTrace", "jobs": [{"build": B("list_a.cpp", f), "profile": "p23", "traces": 40, "events": 400, "shard": s} for s, f in enumerate(("asan", "rel"))],
            "assumptions": SEQ, "must": ["put", "sli", "cat", "map", "csl", "see", "fin"], "corrupt": ["sli", "cat", "map"]},
    "P24": {"spec": "StopwatchTrace", "jobs": [{"build": B("list_a.cpp", f), "profile": "p24", "traces": 100, "events": 500, "shard": s} for s, f in enumerate(("asan", "rel"))],
            "assumptions": SEQ, "must": ["tick", "new", "go", "snap", "read", "us", "say"], "corrupt": ["read", "us"]},
})

# Checks C01..C11: the library in the simulator for the C API
import os, sys, threading
from . import common, driver
from .common import VERIF

CFLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-DLIBLOC_PRIVATE", "-include", "config.h", "-O1", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE",
    "-fsanitize=address,bounds,builtin", "-fno-sanitize-recover=bounds,builtin", "-fsanitize-coverage=trace-pc-guard",
    "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-w"]
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-Wno-deprecated-declarations"]

def build():
    c, h = common.repo_sources()
    sim = os.path.join(VERIF, "sim")
    cpp = [os.path.join(sim, f) for f in ("main.cpp", "gen.cpp", "world.cpp", "seam.cpp")]
    sim_deps = cpp + [os.path.join(sim, f) for f in ("seam.h", "model.h", "world.h", "redirect.syms", "mkkeys.py")]
    def make_sim(d):
        common.run([sys.executable, os.path.join(sim, "mkkeys.py"), os.path.join(sim, "keys"), os.path.join(d, "keys.inc")])
        common.parallel([["clang++"] + CXXFLAGS + ["-I", d, "-I", common.REPO + "/src", "-c", f, "-o", os.path.join(d, os.path.basename(f)[:-4] + ".o")] for f in cpp])
    def make_lib(d):
        common.write_config(d)
        objs = [os.path.join(d, os.path.basename(f)[:-2] + ".o") for f in c]
        common.parallel([["clang"] + CFLAGS + ["-I", d, "-I", common.REPO + "/src", "-c", f, "-o", o] for f, o in zip(c, objs)])
        common.run(["ld", "-r", "-o", os.path.join(d, "lib.o")] + objs)
        common.run(["objcopy", "--redefine-syms=" + os.path.join(sim, "redirect.syms"), os.path.join(d, "lib.o")])
    out = {}
    def t1(): out["lib"] = common.cached("clib", common.digest(c + h, " ".join(CFLAGS) + open(os.path.join(sim, "redirect.syms")).read()), make_lib)
    def t2(): out["sim"] = common.cached("csim", common.digest(sim_deps + h, " ".join(CXXFLAGS)), make_sim)
    errs = []
    def guard(f):
        def g():
            try: f()
            except BaseException as e: errs.append(e)
        return g
    ts = [threading.Thread(target=guard(t)) for t in (t1, t2)]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]
    def make_bin(d):
        s = out["sim"]
        common.run(["clang++", "-fsanitize=address,bounds,builtin", "-o", os.path.join(d, "locsim")]
            + [os.path.join(s, f) for f in ("main.o", "gen.o", "world.o", "seam.o")] + [os.path.join(out["lib"], "lib.o"), "-lssl", "-lcrypto", "-lresolv"])
    d = common.cached("cbin", os.path.basename(out["sim"])[5:] + os.path.basename(out["lib"])[5:], make_bin)
    return driver.Sim([os.path.join(d, "locsim")])

COUNTS = {  # simulated runs: quick, thorough
    "C01": (9000, 250000), "C02": (6000, 150000), "C03": (14000, 400000), "C04": (4000, 120000), "C05": (14000, 400000), "C06": (4500, 120000),
    "C07": (2600, 80000), "C08": (3500, 120000), "C09": (5000, 150000), "C10": (14000, 400000), "C11": (250000, 8000000),
}

RULE = {
    "C01": "each run writes a generated set of networks (clusters of nested, adjacent and sibling networks, complete small subtrees, full-depth paths, bulk sets) in a generated order through 1-4 write attempts with injected short/failed writes, reopens every file reported as written, and compares lookups at and next to every network boundary with a longest-prefix-match model",
    "C02": "each run adds generated ASes, countries and metadata (shared, repeated, prefix/suffix, empty and up to 600 KB long strings, duplicates) interleaved with clock jumps and several write attempts with I/O faults, reopens every written file and compares all entries, their absent neighbours and metadata with the model",
    "C03": "each run writes a generated database and steps up to 5 enumerators (networks, flattened, bogons, ASes, countries, random filters) and lookups in a seeded interleaving with abandonment, comparing every step with the model",
    "C04": "each run steps interleaved flattened enumerations with random filters over generated nested networks; the result is cut at every boundary and each piece compared with the longest-prefix-match model",
    "C05": "each run steps interleaved bogon enumerations over generated networks (boundaries, single address gaps, nesting); the result is cut at every boundary and each piece compared with the set model",
    "C06": "each run writes a generated, mostly signed database up to 5 times with injected write/seek/close/read/crypto/allocation faults, torn writes and full disks at calibrated positions; every success is reopened, verified with all keys and compared with the model; the last attempt is fault-free and has to succeed",
    "C07": "each run signs generated databases with up to two keys of different types, derives damaged, spliced, torn and crash-truncated files, and verifies with all keys under read/crypto/seek faults and again without; the oracle is byte equality with what the writer produced outside the signature fields",
    "C08": "each run damages a generated database in up to 5 chained ways (bit flips, truncation, crash images, arbitrary offsets and lengths, rewired trees, unterminated strings, random bytes) and uses every read API on it behind guarded mappings with a step limit",
    "C09": "each run performs a generated sequence of writer, database, enumerator, list and network operations with 1-10 calibrated faults (allocation, mmap, dup, fdopen, lseek, read, write, seek, close, crypto), retries the failed operations and compares all results with the model; leaks are accounted for at the end",
    "C10": "each run creates and releases contexts, writers, databases, enumerators and objects in a seeded order with extra references, closed and moved caller streams and removed files; all objects are read back and everything still held at the end is a violation",
    "C11": "each run feeds up to 6 generated DNS replies (well-formed, CNAME chains, mutated, cut off with left-over bytes, oversized, failed queries) to the discovery function and compares with an independent parser",
}

REAL = ["all of /repo/src/*.c (compiled from the working tree)", "OpenSSL signing and verification", "glibc stdio above the stream seam", "glibc dn_expand/strptime/timegm"]
STUB = ["system calls below stdio (simulated files with fault injection)", "allocator entry points (fault injection and accounting in front of the real allocator)",
    "mmap (guard pages and poisoned tail around the real mapping)", "clock", "resolver (scripted replies)", "OpenSSL random numbers (seeded)"]

def check(prop, tier, seed):
    return driver.check(build, prop, tier, seed, COUNTS[prop], RULE[prop], REAL, STUB, [
        "a clean batch is evidence, not proof: the space of plans is sampled",
        "faults are injected at the library's calls into libc and OpenSSL; glibc and OpenSSL themselves are trusted",
    ])

def replay(prop, fn):
    return driver.replay(build, prop, fn)

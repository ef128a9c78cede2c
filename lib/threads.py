# Check C17: several threads use the library, one at a time, under a seeded scheduler
import os, subprocess, sys, tempfile
from . import common, driver
from .common import VERIF

CFLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-DLIBLOC_PRIVATE", "-include", "config.h", "-O1", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE",
    "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-ftrivial-auto-var-init=pattern", "-w"]
CXXFLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address", "-Wno-deprecated-declarations"]

class ThreadSim(driver.Sim):
    def concretise(self, text):
        """The same plan with the schedule written down, so that it can be minimised"""
        with tempfile.NamedTemporaryFile("w", suffix=".plan", dir=common.BUILD) as f:
            f.write(text)
            f.flush()
            p = subprocess.run(self.cmd + ["exec", f.name, "-r"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, timeout=90)
        return p.stdout.decode(errors="replace") if p.returncode == 0 else None

def build():
    c, h = common.repo_sources()
    sim = os.path.join(VERIF, "sim")
    src, syms = os.path.join(sim, "threads.cpp"), os.path.join(sim, "threads.syms")
    deps = [src, syms, os.path.join(sim, "mkkeys.py")]
    def make(d):
        common.write_config(d)
        common.run([sys.executable, os.path.join(sim, "mkkeys.py"), os.path.join(sim, "keys"), os.path.join(d, "keys.inc")])
        objs = [os.path.join(d, os.path.basename(f)[:-2] + ".o") for f in c]
        common.parallel([["clang++"] + CXXFLAGS + ["-I", d, "-I", common.REPO + "/src", "-c", src, "-o", os.path.join(d, "sim.o")]]
            + [["clang"] + CFLAGS + ["-I", d, "-I", common.REPO + "/src", "-c", f, "-o", o] for f, o in zip(c, objs)])
        common.run(["ld", "-r", "-o", os.path.join(d, "lib.o")] + objs)
        common.run(["objcopy", "--redefine-syms=" + syms, os.path.join(d, "lib.o")])
        common.run(["clang++", "-fsanitize=address", "-pthread", "-o", os.path.join(d, "threadsim"), os.path.join(d, "sim.o"), os.path.join(d, "lib.o"), "-lssl", "-lcrypto", "-lresolv"])
    d = common.cached("threads", common.digest(c + h + deps, " ".join(CFLAGS + CXXFLAGS)), make)
    return ThreadSim([os.path.join(d, "threadsim")])

COUNTS = {"C17": (6000, 200000)}
RULE = "each run lets 2-4 threads with contexts, networks, lists, writers, databases, enumerators and resolver replies of their own perform similar programs; a seeded scheduler (random walk, priorities with change points, stalled threads) may switch before every memory access and basic block of the library and prefers memory that more than one thread has used; allocations fail in some of them; the results of each thread are compared with those of the same program alone in a fresh process"
REAL = ["all of /repo/src/*.c (compiled from the working tree)", "real threads with thread local storage", "OpenSSL", "glibc"]
STUB = ["thread scheduling (one thread at a time, seeded)", "locks (waiting becomes a scheduling decision)", "clock (one per thread)", "resolver (scripted replies)", "allocator entry points (fault injection)"]

def check(prop, tier, seed):
    return driver.check(build, prop, tier, seed, COUNTS[prop], RULE, REAL, STUB, [
        "a clean batch is evidence, not proof: the space of schedules is sampled",
        "threads are switched at the library's memory accesses, basic blocks and calls; inside of libc and OpenSSL they are not, and memory is sequentially consistent",
    ])

def replay(prop, fn):
    return driver.replay(build, prop, fn)

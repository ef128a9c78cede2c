# Check C22: the Lua, Perl and Python bindings in hosts that decide when garbage is collected and what fails
import glob, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import common, driver, pyworld
from .common import VERIF

SAN = ["-fsanitize=address,bounds,builtin", "-fno-sanitize-recover=bounds,builtin"]
CFLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-DLIBLOC_PRIVATE", "-include", "config.h", "-O1", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern", "-w"] + SAN
CXX = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address"]

def embed(what): return subprocess.run(["perl", "-MExtUtils::Embed", "-e", what], stdout=subprocess.PIPE, text=True, check=True).stdout.split()

def hosts():
    c, h = common.repo_sources()
    src = common.REPO + "/src"
    bind = os.path.join(VERIF, "bind")
    lua, py = sorted(glob.glob(src + "/lua/*.c")), sorted(glob.glob(src + "/python/*.c"))
    perl = [src + "/perl/Location.xs", src + "/perl/typemap"]
    hh = sorted(glob.glob(src + "/lua/*.h") + glob.glob(src + "/python/*.h"))
    deps = [os.path.join(bind, f) for f in ("host.cpp", "redirect.syms")]
    pinc = common.run([pyworld.PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).decode().strip()
    popts, lopts = embed("ccopts"), [x for x in embed("ldopts") if not x.startswith("-fstack")]
    popts = [x for x in popts if x != "-pipe"]
    def make(d):
        common.write_config(d)
        with open(os.path.join(d, "Location.c"), "wb") as f: f.write(subprocess.run(["xsubpp", "-typemap", perl[1], perl[0]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout)
        inc = ["-I", d, "-I", src]
        cmds, groups = [], {"lua": [], "python": [], "perl": []}
        def cc(f, o, extra=()):
            o = os.path.join(d, o)
            cmds.append(["clang"] + CFLAGS + list(extra) + inc + ["-c", f, "-o", o])
            return o
        lib = [cc(f, "lib-" + os.path.basename(f)[:-2] + ".o") for f in c]
        groups["lua"] = [cc(f, "lua-" + os.path.basename(f)[:-2] + ".o", ["-I/usr/include/lua5.4"]) for f in lua]
        groups["python"] = [cc(f, "py-" + os.path.basename(f)[:-2] + ".o", ["-I", pinc]) for f in py]
        groups["perl"] = [cc(os.path.join(d, "Location.c"), "perl-Location.o", popts + ["-DVERSION=\"0.01\"", "-DXS_VERSION=\"0.01\"", "-UNDEBUG"])]
        host = os.path.join(bind, "host.cpp")
        cmds.append(CXX + ["-DLANG_LUA", "-I/usr/include/lua5.4", "-c", host, "-o", os.path.join(d, "host-lua.o")])
        cmds.append(CXX + ["-DLANG_PYTHON", "-I", pinc, "-c", host, "-o", os.path.join(d, "host-python.o")])
        cmds.append(CXX + ["-DLANG_PERL"] + popts + ["-c", host, "-o", os.path.join(d, "host-perl.o")])
        common.parallel(cmds)
        libs = {"lua": ["-llua5.4"], "python": ["-lpython3.12"], "perl": lopts}
        def link(k):
            o = os.path.join(d, "all-%s.o" % k)
            common.run(["ld", "-r", "-o", o] + lib + groups[k])
            common.run(["objcopy", "--redefine-syms=" + deps[1], o])
            common.run(["clang++"] + SAN + ["-o", os.path.join(d, "host-" + k), os.path.join(d, "host-%s.o" % k), o] + libs[k] + ["-lcrypto", "-lresolv"])
            os.unlink(o)
        with ThreadPoolExecutor(3) as ex: list(ex.map(link, groups))
        for f in glob.glob(d + "/*.o"): os.unlink(f)
    return common.cached("bindhost", common.digest(c + h + lua + py + perl + hh + deps, " ".join(CFLAGS + CXX)), make)

def build():
    sim = pyworld.build()
    sim.env["BINDHOST"] = hosts()
    sim.env["BINDDRV"] = os.path.join(VERIF, "bind")
    return sim

COUNTS = {"C22": (7000, 150000)}
RULE = ("each run writes 1-2 generated databases and executes a generated program of 5-60 steps in Lua, Perl or Python (open, look up, list, search, build and write databases, drop objects in any order) with injected failures of "
    "memory, fopen, fdopen, dup and mmap below the bindings and Lua's garbage collector started at seeded instructions and allocations; every answer is compared with the model, and everything has to be released at the end")
REAL = ["all of /repo/src/*.c, /repo/src/lua, /repo/src/python/*.c and /repo/src/perl/Location.xs (from the working tree), with AddressSanitizer", "the Lua 5.4, Perl and CPython interpreters", "OpenSSL"]
STUB = ["memory, stdio, descriptors and mappings of the library and the bindings (passed through, counted, with injected faults)", "the clock", "when Lua collects garbage (count hook and failing allocations at seeded points)"]

def check(prop, tier, seed):
    return driver.check(build, prop, tier, seed, COUNTS[prop], RULE, REAL, STUB, [
        "a clean batch is evidence, not proof: the space of programs is sampled",
        "the interpreters' own allocations do not fail for good: an error that the interpreter itself raises in the middle of the C code of a binding is out of scope",
    ])

def replay(prop, fn):
    return driver.replay(build, prop, fn)

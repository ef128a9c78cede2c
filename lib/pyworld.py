# Checks C12..C16, C19..C21 and C23: the Python modules and the command line tool in the simulator for processes
import glob, os, shutil, sys, sysconfig
from . import common, driver
from .common import VERIF

PY = "/usr/bin/python3"
CFLAGS = ["-std=gnu11", "-D_GNU_SOURCE", "-DLIBLOC_PRIVATE", "-include", "config.h", "-O1", "-g", "-fPIC", "-w"]

def build():
    c, h = common.repo_sources()
    src = common.REPO + "/src"
    pc = sorted(glob.glob(src + "/python/*.c"))
    ph = sorted(glob.glob(src + "/python/*.h"))
    py = sorted(glob.glob(src + "/python/location/*.py"))
    script = src + "/scripts/location.in"
    importer = src + "/scripts/location-importer.in"
    copy = common.REPO + "/tools/copy.py"
    pysim = os.path.join(VERIF, "pysim")
    inc = common.run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"]).decode().strip()
    def make_ext(d):
        common.write_config(d)
        cmds = []
        objs = []
        for f in c + pc:
            o = os.path.join(d, ("py-" if f in pc else "") + os.path.basename(f)[:-2] + ".o")
            objs.append(o)
            cmds.append(["gcc"] + CFLAGS + (["-DPACKAGE_VERSION=\"0\""] if False else []) + ["-I", d, "-I", src, "-I", inc, "-c", f, "-o", o])
        common.parallel(cmds)
        common.run(["gcc", "-shared", "-o", os.path.join(d, "_location.so")] + objs + ["-lcrypto", "-lresolv"])
    ext = common.cached("pyext", common.digest(c + h + pc + ph, " ".join(CFLAGS)), make_ext)
    def make_world(d):
        os.makedirs(os.path.join(d, "site", "location"))
        shutil.copy(os.path.join(ext, "_location.so"), os.path.join(d, "site", "_location.so"))
        for f in py: shutil.copy(f, os.path.join(d, "site", "location"))
        t = open(script).read().replace("@VERSION@", "0").replace("@databasedir@", "/nonexistent/location")
        open(os.path.join(d, "location-script.py"), "w").write(t)
        t = open(importer).read().replace("@VERSION@", "0").replace("@databasedir@", "/nonexistent/location")
        open(os.path.join(d, "importer-script.py"), "w").write(t)
        shutil.copy(copy, os.path.join(d, "copy-script.py"))
        common.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", os.path.join(d, "shim.so"), os.path.join(pysim, "shim.c"), "-ldl"])
        for f in glob.glob(pysim + "/*.py"): shutil.copy(f, d)
        shutil.copytree(os.path.join(pysim, "pool"), os.path.join(d, "pool"))
        shutil.copytree(os.path.join(VERIF, "sim", "keys"), os.path.join(d, "keys"))
    deps = py + [script, importer, copy] + glob.glob(pysim + "/*.py") + glob.glob(pysim + "/*.c") + glob.glob(pysim + "/pool/*")
    d = common.cached("pyworld", common.digest(deps, os.path.basename(ext)), make_world)
    return driver.Sim([PY, os.path.join(d, "sim.py")], {"LD_PRELOAD": os.path.join(d, "shim.so"), "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1"})

COUNTS = {"C12": (1600, 60000), "C13": (2400, 90000), "C14": (2400, 90000), "C15": (2400, 90000), "C16": (5000, 300000), "C19": (5000, 300000), "C20": (2000, 60000), "C21": (2000, 60000), "C23": (5000, 200000)}
RULE = {
    "C12": "each run performs 1-9 updates (with kills at any file operation, power losses, disk faults, two concurrent updaters under a seeded scheduler, open readers); the recorded file operations are replayed and the database path is judged after every single one, including what survives a power loss there",
    "C13": "each run performs 1-9 updates with generated resolver answers and mirrors (tampered, truncated, spliced, stale, wrongly signed, badly compressed, redirected content); whatever is installed is compared with the signed originals, the announced and the installed version",
    "C14": "each run performs 1-9 updates with generated mirror failures around (mostly) one healthy mirror and some disk faults; success, exit status, time and left-over files are judged after every update",
    "C15": "each run performs 1-9 updates with an interval at generated clock values around its boundary, with jumps, time zones and daylight saving; DNS queries and connections are counted at the seams",
    "C20": "each run performs 1-9 imports of countries, overrides, registries, feeds, geofeeds and the routing table with generated content, generated failures of servers, Bird and the database (lost connections, failing statements, kills at any statement or around any commit); every committed state of the tables is judged: each source is as it was before or completely as it has been served",
    "C21": "each run fills the tables with generated networks, announcements, feeds, geofeeds and overrides and compiles them with generated failures of the database and the disk; the file is opened and compared with a model of the precedence rules",
    "C16": "each run writes a generated database and exports generated selections of countries, ASes and special categories in all formats into directories or to standard output with injected open/write/close failures, short writes and full disks; every successful export is parsed and compared with a longest-prefix-match model",
    "C23": "each run writes a generated database and copies it (and copies of it) with tools/copy.py, over files that are there already, with sources and directories that are missing and with open, write and close failures, short writes and full disks; every copy that is said to have succeeded is opened and compared with the model of the original",
    "C19": "each run writes a generated database and runs generated queries, listings and dumps with injected failures of the output; all output is parsed and compared with the model",
}
REAL = ["all of /repo/src/*.c, /repo/src/python (module and package) and /repo/src/scripts/location.in (from the working tree)", "CPython's urllib, http.client, lzma, tempfile and io", "OpenSSL signature verification"]
REAL2 = ["/repo/src/scripts/location-importer.in, /repo/src/python/location (database, downloader) and the module over all of /repo/src/*.c (from the working tree)", "CPython's asyncio, urllib, http.client, gzip, csv, json and ipaddress"]
STUB = ["file system calls (passed through to a scratch directory, recorded, with injected faults; every directory is a file system of its own)", "clocks, sleeping, time zone and random numbers", "resolver",
    "TCP connections, TLS and mirrors (scripted)", "syslog"]

STUB2 = ["PostgreSQL, psycopg and psycopg_pool (an SQL interpreter with transactions, savepoints, unique indexes, pipelines and injected faults, pysim/pg.py and pysim/fakepg.py)", "the event loop's selector, clock and threads (seeded scheduler, pysim/aio.py)",
    "TCP connections, TLS, HTTP servers and the Bird control socket (scripted)", "clocks, sleeping, time zone and random numbers"]

def check(prop, tier, seed):
    if prop in ("C20", "C21"):
        return driver.check(build, prop, tier, seed, COUNTS[prop], RULE[prop], REAL2, STUB2, [
            "a clean batch is evidence, not proof: the space of plans is sampled",
            "the simulated PostgreSQL understands the SQL that the importer uses; a run that needs anything else ends without a verdict and is counted under the shape 'needs something the simulated server cannot do'",
        ])
    return driver.check(build, prop, tier, seed, COUNTS[prop], RULE.get(prop, prop), REAL, STUB, [
        "a clean batch is evidence, not proof: the space of plans is sampled",
        "the model of a power loss: names become durable in order and at the latest with the next fsync, data is only durable after fsync",
    ])

def replay(prop, fn):
    return driver.replay(build, prop, fn)

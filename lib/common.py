# What all checks have in common: building, known findings, evidence
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = int(os.environ.get("VERIF_JOBS", max(1, min(8, os.cpu_count() or 1))))

class CheckError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise CheckError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout

def parallel(cmds):
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda c: run(c), cmds))

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def repo_sources():
    c = sorted(f for f in glob.glob(REPO + "/src/*.c") if not os.path.basename(f).startswith("test-"))
    h = sorted(glob.glob(REPO + "/src/libloc/*.h") + glob.glob(REPO + "/src/*.h"))
    return c, h

CONFIG_H = """
#define HAVE_ENDIAN_H 1
#define HAVE_SECURE_GETENV 1
#define HAVE_RES_QUERY 1
#define HAVE_MMAP 1
#define HAVE_MADVISE 1
#define HAVE_MUNMAP 1
#define HAVE_QSORT 1
#define PACKAGE_VERSION "0.9.17"
#define PACKAGE "libloc"
#define LIBLOC_DEFAULT_DATABASE_PATH "/var/lib/location/database.db"
"""

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self
    def __exit__(self, *a):
        self.f.close()

def cached(name, key, make):
    """Returns a directory with what make(dir) produced for this very content"""
    with Lock(name):
        d = os.path.join(BUILD, name + "-" + key)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        for old in glob.glob(os.path.join(BUILD, name + "-*")):
            if os.path.isdir(old):
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        make(d)
        open(os.path.join(d, "ok"), "w").close()
        return d

def write_config(d):
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(CONFIG_H)

# ---------------------------------------------------------------------------
def known_findings(prop):
    """Lines 'known: property=<id> match=<text that identifies it> what=<...>'"""
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                m, _, what = rest.partition(" what=")
                out.append((m[len("match="):], what))
    return out

def write_evidence(prop, tier, seed, coverage, assumptions, wall, violations, level="exploration"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))

def save_replay(prop, text, ext="plan"):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s.%s" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10], ext))
    with open(fn, "w") as f:
        f.write(text)
    return fn

def ddmin(items, fails, deadline):
    """The smallest list for which fails(list) is still true; candidates are tried in parallel"""
    n = 2
    with ThreadPoolExecutor(JOBS) as ex:
        while len(items) >= 1 and time.time() < deadline:
            size = max(1, (len(items) + n - 1) // n)
            chunks = [(i, i + size) for i in range(0, len(items), size)]
            cands = [items[:a] + items[b:] for a, b in chunks]
            found = None
            for k in range(0, len(cands), JOBS):
                if time.time() > deadline:
                    break
                res = list(ex.map(fails, cands[k:k + JOBS]))
                for c, r in zip(cands[k:k + JOBS], res):
                    if r:
                        found = c
                        break
                if found is not None:
                    break
            if found is not None:
                items = found
                n = max(2, n - 1)
                if not items:
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
    return items

#!/usr/bin/env python3
# mutate.py [-n COUNT] [-s SEED] [-j WORKERS] [-f FILE]... : how many small changes to the sources do the checks notice?
# Works in copies under /tmp/mut; neither /repo nor /verif are touched. Appends one line per change to /tmp/mut/results.
import argparse, os, random, re, shutil, subprocess, sys, threading, time
ROOT = "/tmp/mut"
CC = {"address.c": "C17", "as.c": "C02 C03 C09 C10", "as-list.c": "C03 C09 C10 C02", "country.c": "C02 C03 C09 C10", "country-list.c": "C03 C09 C10 C02",
  "database.c": "C03 C01 C08 C07 C02 C04 C05 C09 C10", "libloc.c": "C09 C10 C17", "network.c": "C01 C04 C05 C03 C09 C10 C08 C17", "network-list.c": "C04 C05 C01 C03 C09 C10",
  "network-tree.c": "C01 C03 C09 C10 C06", "resolv.c": "C11", "stringpool.c": "C02 C06 C09 C08 C10", "writer.c": "C06 C01 C02 C07 C09 C10"}
def checks_for(f):
    b = os.path.basename(f)
    if f.endswith((".c", ".h")) and "/python/" not in f and "/lua/" not in f: return CC.get(b, "C01 C03 C09").split() if b not in ("address.c", "address.h") else "C01 C03 C04 C05 C08 C09 C17 C16 C19".split()
    if "/lua/" in f or "/perl/" in f: return ["C22"]
    if "importer" in b or f.endswith("location/database.py"): return "C20 C21".split()
    if b == "downloader.py": return "C13 C14 C12 C15".split()
    if b == "copy.py": return ["C23"]
    if b == "export.py": return "C16 C19".split()
    if b == "database.c" or "/python/" in f and f.endswith(".c"): return "C22 C19 C16 C13".split()
    return "C19 C16 C15 C14 C13 C12".split()

OPS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
  (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b(\d{2,})\b", lambda m: str(int(m.group(1)) + 1)),
  (r"(?<![&\w])&(?=[ ])", "|"), (r"(?<!\|)\|(?=[ ])", "&"), (r"<<", ">>"), (r">>", "<<"), (r"\+\+", "--"), (r"\+=", "-="), (r"\|=", "="), (r"\bif \((.*)\) ?(\{?)$", r"if (0) \2"), (r"\bif \((.*)\) ?(\{?)$", r"if (1) \2"),
  (r"return r;", "return 0;"), (r"return -?1;", "return 0;"), (r"return 0;", "return 1;"), (r"!(?=[\w(])", "")]
PYOPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
  (r" \+ ", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b(\d{2,})\b", lambda m: str(int(m.group(1)) + 1)), (r"\bif (.*):$", "if False:"), (r"\bif (.*):$", "if True:"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "pass"),
  (r"\breturn (\d)$", lambda m: "return %d" % (1 - min(1, int(m.group(1))))), (r"\braise\b.*$", "pass"), (r" is None", " is not None"), (r"except [\w.]+", "except ZeroDivisionError")]

def mutants(repo, files):
    out = []
    for f in files:
        lines = open(os.path.join(repo, f)).read().split("\n")
        py = not f.endswith((".c", ".h"))
        comment = False
        for i, l in enumerate(lines):
            t = l.strip()
            if not py and t.startswith("/*"): comment = True
            if comment:
                if "*/" in t: comment = False
                continue
            if not t or t.startswith(("//", "#", "*", "case ", "static ", "struct ", "LOC_EXPORT", '"""')): continue
            if re.search(r"\b(DEBUG|ERROR|INFO|log\.\w+|hexdump|add_argument|add_parser|parser\.|set_defaults|PyDoc)\b", t): continue
            if py and re.match(r"(def|class|import|from|@|try|else|finally|help=)", t): continue
            for rx, new in (PYOPS if py else OPS):
                for m in re.finditer(rx, l):
                    # not in strings
                    pre = l[:m.start()]
                    if pre.count('"') % 2 or (not py and "//" in pre): continue
                    n = pre + m.expand(new) if isinstance(new, str) else pre + new(m)
                    n += l[m.end():]
                    if n != l: out.append((f, i, n))
            if not py and t.endswith(";") and not re.match(r"(return|goto|\}|\w+[ \*]+\w+( =.*)?;|(const |unsigned )?\w+\*? \w+\[?.*\]?( = .*)?;)", t) or (not py and t in ("break;", "continue;")):
                out.append((f, i, ";"))
            if py and re.match(r"[\w.]+(\(.*\)| [-+]?= .*)$", t):
                out.append((f, i, l[:len(l) - len(l.lstrip())] + "pass"))
    return out

def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 99, "timeout"

def worker(n, queue, lock, secs, only):
    d = "%s/w%d" % (ROOT, n)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="1", VERIF_LIMIT=str(secs), VERIF_MINIMISE="0")
    while True:
        with lock:
            if not queue: return
            f, i, new = queue.pop()
        p = os.path.join(d, "repo", f)
        orig = open(p).read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        res = "SURVIVED"
        t = time.time()
        try:
            for c in only or checks_for(f):
                rc, out = sh([sys.executable, d + "/verif/check.py", c], 600, env=env)
                if rc == 2 or rc not in (0, 1, 99):
                    res = "BUILD" if "error:" in out or "Error" in out else "RC%d %s" % (rc, out[-200:].replace("\n", " "))
                    break
                if rc:
                    res = "%s %s" % (c, out.strip().split("\n")[0][:100])
                    break
        finally:
            open(p, "w").write(orig)
        with lock:
            with open(ROOT + "/results", "a") as r:
                r.write("%s\t%s:%d\t%s\t=>\t%s\t(%ds)\n" % (res, f, i + 1, old.strip(), new.strip(), time.time() - t))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=100); ap.add_argument("-s", type=int, default=1); ap.add_argument("-j", type=int, default=8); ap.add_argument("-t", type=float, default=20); ap.add_argument("-f", action="append")
    ap.add_argument("-c", help="these checks rather than those of the file")
    ap.add_argument("-l", help="only these: a file with FILE:LINE<tab>...<tab>=><tab>NEW as in the results")
    a = ap.parse_args()
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ms = mutants("/repo", a.f or [])
    random.Random(a.s).shuffle(ms)
    print(len(ms), "possible")
    ms = ms[:a.n]
    if a.l:
        ms = []
        all_ = mutants("/repo", a.f or [])
        for l in open(a.l):
            x = l.rstrip("\n").split("\t")
            f, n = x[1].rsplit(":", 1)
            ms += [m for m in all_ if m[0] == f and m[1] == int(n) - 1 and m[2].strip() == x[4]][:1]
        print(len(ms), "selected")
    for n in range(a.j):
        d = "%s/w%d" % (ROOT, n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/src", d + "/repo/src", ignore=shutil.ignore_patterns(".libs", "*.o", "*.lo", ".deps"))
        shutil.copytree(verif, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", ".build", "replays", "evidence"))
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(n, ms, lock, a.t, (a.c or "").split())) for n in range(a.j)]
    for t in ts: t.start()
    for t in ts: t.join()
    for n in range(a.j): shutil.rmtree("%s/w%d" % (ROOT, n), ignore_errors=True)
main()

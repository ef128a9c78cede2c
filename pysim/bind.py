# C22: programs in Lua, Perl and Python that use the bindings
import ipaddress, os, random, re, socket, subprocess
import cli
import world as W
from cli import Model, interval, joined, minus, fmt, net, TOP, V4MAPPED

AF = {4: 2, 6: 10}
DRV = {"lua": "drv.lua", "python": "drv.py", "perl": "drv.pl"}

def tok(t):
    if t == "nil": return None
    k, _, v = t.partition(":")
    if k == "s":
        try: return bytes.fromhex(v).decode()
        except UnicodeDecodeError: return bytes.fromhex(v)
    if k == "i": return int(v)
    if k == "b": return v == "1"
    return t
def unhex(s): return bytes.fromhex(s).decode(errors="surrogateescape")
def lower(s): return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)
def valid_cc(c): return bool(re.match(r"^[A-WYZ][A-Z]$", c))
def address(s):
    try: i = ipaddress.ip_address(s)
    except ValueError: return None
    if i.version == 6 and i.ipv4_mapped: i = i.ipv4_mapped
    return i
def network(s):
    try: n = ipaddress.ip_network(s, strict=False)
    except ValueError: return None
    return (n.version, int(n.network_address), n.prefixlen)

WRONG_DB = ("lookup", "get_as", "asns", "ccs", "ccs2", "ccs3", "ccs4", "verify", "asn2", "asns2", "asns3", "family", "sas", "gcc", "bogons")
WRONG = WRONG_DB + ("db", "net", "setasn", "name", "cname", "cont", "ncc", "delname", "delcc", "delasn", "strasn", "wvendor", "wlicense", "wdesc", "wdel", "wkey", "wargs", "asargs", "ccargs", "netargs", "nul", "nul2", "sur",
    "exnet", "subnet", "rp", "wnet", "was", "was2", "wcc", "wwrite", "dup", "flag", "hasflag", "valid", "log")
# What may be repeated
REP = ("open", "meta", "verify", "as", "country", "lookup", "list", "newnet", "newas", "newcountry", "rp", "exclude", "issub", "eq", "lt", "eqx", "hash", "repr", "packed", "show", "set", "valid", "wrong", "wnew", "wmeta",
    "cc", "asn", "flag", "countries", "cname", "cont", "asname")
class Obj:
    def __init__(self, t, **k):
        self.t = t
        self.__dict__.update(k)

class Bind(cli.Cli):
    def __init__(self, w):
        super().__init__(w)
        self.dbs = {}       # path -> model
        self.ops = []
        self.lang = "lua"
        self.o = {}
        self.stdin = None
    def line(self, words, faults):
        k = words[0]
        o = W.parse_opts(words[1:])
        if k == "run":
            super().line(words, faults)
            self.lang, self.gap, self.gcseed = o.get("lang", "lua"), int(o.get("gc", "0")), int(o.get("gcseed", "1"))
        elif k == "forget": self.m = Model()
        elif k == "build":
            self.build(o)
            p = self.path(o["as"])
            os.rename(self.w.db, p)
            self.dbs[p] = self.d
        elif k == "damage":
            # A copy of a database of which some bytes are different
            d = bytearray(open(self.path(words[2]), "rb").read())
            for x in words[3:]:
                o, _, b = x.partition(":")
                if o == "end": del d[int(b):]
                elif int(o) < len(d): d[int(o)] = int(b)
            p = self.path(words[1])
            with open(p, "wb") as f: f.write(d)
            self.dbs[p] = "?"
        elif k == "file":
            with open(self.path(words[1]), "wb") as f: f.write(bytes.fromhex(words[2]) if len(words) > 2 else b"")
        elif k == "op": self.ops.append((words[1:], faults))
        else: super().line(words, faults)
    def path(self, n): return os.path.join(self.w.root, "db", n + ".bin")
    def finish(self):
        w = self.w
        if not self.ops: return
        prog = os.path.join(w.root, "out", "prog")
        lines = []
        self.P = "C22"
        for i, (a, f) in enumerate(self.ops):
            a = [self.path(x[1:]) if x.startswith("@") else os.path.join(W.HERE, "keys", x[1:]) if x.startswith("%") else x for x in a]
            lines.append("%d;%s;%s\n" % (i, " ".join(f), " ".join(a)))
            self.ops[i] = (a, f)
        with open(prog, "w") as f: f.write("".join(lines))
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", "SIMTIME": str(w.S.now // 10**9),
            "PERL_HASH_SEED": "0", "UBSAN_OPTIONS": "print_stacktrace=0", "HOME": "/nonexistent"}
        host = os.environ["BINDHOST"] + "/host-" + self.lang
        try: r = subprocess.run([host, prog, os.path.join(os.environ["BINDDRV"], DRV[self.lang]), str(self.gap), str(self.gcseed)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120, cwd=w.root)
        except subprocess.TimeoutExpired: w.fail("C22", "hang: the program does not end")
        if w.verbose:
            for l in r.stderr.decode(errors="replace").splitlines(): print("    | " + l)
        if r.returncode == 3: raise RuntimeError("the host failed: " + r.stderr.decode(errors="replace")[-500:])
        out = r.stdout.decode().split("\n")[:-1]
        end = None
        for n, l in enumerate(out):
            if l.startswith("END "): end = l; break
            i, f, res = l.split(" ", 2)
            self.exc = None
            rep = self.ops[int(i)][0][0] == "rep"
            if rep:
                grown, res = res.split(" ", 1)
                if int(grown) > 15: self.bad("leak", "%s leaves %s of memory behind each time" % (self.ops[int(i)][0][1], "objects or other pieces" if self.lang == "perl" else "pieces"))
            if res.startswith("err:"): res, self.exc = "err", res[4:]
            if w.verbose: print("    %s %s -> %s %s" % (i, " ".join(self.ops[int(i)][0]), f, res[:300] + (" " + self.exc if self.exc else "")))
            w.log("op", i, f, res)
            w.ops += 1
            if f != "-":
                w.errors += res == "err"
                for x in f.split(","): w.faults[x] = w.faults.get(x, 0) + 1
            self.judge(self.ops[int(i)][0][rep:], f != "-", res)
        if r.returncode or end is None:
            e = r.stderr.decode(errors="replace")
            m = re.search(r"SUMMARY: \w+: (\S+)(?: \S+)?(?: in (\S+))?|runtime error: (.*)", e)
            last = self.ops[len(out)][0] if len(out) < len(self.ops) else ["the end"]
            what = " ".join(x for x in (m.groups() if m else ()) if x and not x.startswith("/")) or ("signal %d" % -r.returncode if r.returncode < 0 else "status %d" % r.returncode)
            w.fail("C22", "crash: %s in %s (%s)" % (what, last[0], self.lang))
        before, after, gcs = [x.split() for x in end[4:].split("|")]
        w.checks += 4
        w.shape("%s with %s" % (self.lang, "collections" if int(gcs[0]) else "no collections"))
        w.S.steps += int(gcs[0]) + len(out)
        for what, a, b in zip(("memory", "files", "descriptors", "mappings"), before, after):
            if int(b) > int(a): w.fail("C22", "leak: %d %s left behind after everything has been released (%s)" % (int(b) - int(a), what, self.lang))
            if int(b) < int(a): w.fail("C22", "lost: %s released too often (%s)" % (what, self.lang))
    # -- what may be answered
    def bad(self, cls, msg): self.w.fail("C22", "%s: %s (%s)" % (cls, msg, self.lang))
    def judge(self, a, fired, res):
        op, a = a[0], a[1:]
        self.w.checks += 1
        if self.exc == "Broken": self.bad("error", "%s failed without raising an error, or raised one and returned something" % op)
        # What arguments that make no sense may raise (KeyError: there is no such object)
        self.allowed = ("OSError", "FileNotFoundError", "ValueError") if op in ("open", "wnew", "write") else ("ValueError", "TypeError", "OverflowError", "IndexError", "KeyError")
        return getattr(self, "j_" + op)(a, fired, res)
    def get(self, slot, t):
        x = self.o.get(slot)
        return x if x is not None and (x.t in t or x.t == "?") else None
    def failed(self, op, fired, res, must=False, may=False, what=""):
        """True if there is nothing more to say"""
        if res == "err":
            if not (fired or must or may): self.bad("error", "%s failed without any reason%s" % (op, what))
            if self.exc and not fired and self.exc not in self.allowed: self.bad("error", "%s raised %s%s" % (op, self.exc, what))
            return True
        if must: self.bad("silent", "%s succeeded although it cannot%s" % (op, what))
        return False
    def using(self, op, slot, t, fired, res):
        """The object in a slot, None if there is none that can be judged"""
        x = self.get(slot, t)
        if x is None:
            if res != "err" and slot not in self.o: self.bad("silent", "%s without an object returned %s" % (op, res[:60]))
            return None
        return None if x.t == "?" else x
    def parse(self, t):
        """Description of an object"""
        if t[0] == "net":
            n = network(tok(t[1]) or "")
            if not n: self.bad("text", "%r is no network" % tok(t[1]))
            i = ipaddress.ip_network(tok(t[1]))
            if tok(t[1]) not in (str(i), "%s/%d" % (socket.inet_ntop(socket.AF_INET6 if i.version == 6 else socket.AF_INET, i.network_address.packed), i.prefixlen)): self.bad("text", "%r is not written properly" % tok(t[1]))
            if tok(t[5]) != AF[n[0]]: self.bad("text", "%r has got family %s" % (tok(t[1]), t[5]))
            if t[3] == "i:0" or t[2] == "s:" and self.lang == "lua": self.bad("absent", "what %r does not have is %s" % (tok(t[1]), " ".join(t[2:4])))
            if len(t) > 7:
                lo, hi = interval(*n)
                if (address(tok(t[6])), address(tok(t[7]))) != (address(fmt(n[0], lo)), address(fmt(n[0], hi))): self.bad("text", "%r is from %s to %s" % (tok(t[1]), tok(t[6]), tok(t[7])))
            return Obj("net", n=n, cc=tok(t[2]) or "", asn=tok(t[3]) or 0, flags=tok(t[4]))
        if t[0] == "as":
            x = Obj("as", num=tok(t[1]), name=tok(t[2]) or "")
            if (tok(t[3]) or "").rstrip(" -") != ("AS%d - %s" % (x.num, x.name)).rstrip(" -"): self.bad("text", "AS%d is called %r" % (x.num, tok(t[3])))
            return x
        if t[0] == "country":
            x = Obj("country", code=tok(t[1]), cont=tok(t[2]) or "", name=tok(t[3]) or "")
            if tok(t[4]) != x.code: self.bad("text", "%s is called %r" % (x.code, tok(t[4])))
            return x
        self.bad("type", "an object of type %s" % " ".join(t)[:60])
    def same(self, x, y):
        return x.t == y.t and {k: v for k, v in x.__dict__.items()} == {k: v for k, v in y.__dict__.items() if k in x.__dict__}
    def made(self, op, slot, fired, res, want, why=""):
        """An object that has to be like this"""
        if res == "nil": self.bad("absent", "%s found nothing%s" % (op, why))
        x = self.parse(res.split())
        if not self.same(x, want): self.bad("wrong", "%s returned %s instead of %s%s" % (op, x.__dict__, {k: v for k, v in want.__dict__.items() if k in x.__dict__}, why))
        self.o[slot] = want
    def unknown(self, slot): self.o[slot] = Obj("?")
    def none(self, op, res, why=""):
        if res != "nil": self.bad("wrong", "%s returned %s instead of nothing%s" % (op, res[:100], why))
    def j_drop(self, a, fired, res): self.o.pop(a[0], None)
    def j_gc(self, a, fired, res): pass
    def j_log(self, a, fired, res):
        self.level, self.noisy = None, False
        if not self.failed("set_log_level", fired, res): self.level = int(a[0])
    def j_logged(self, a, fired, res):
        l = getattr(self, "level", None)
        if l is None or self.failed("logged", fired, res): return
        n, top, odd = [tok(t) for t in res.split()]
        if odd: self.bad("wrong", "the log callback has been called with something else than a priority and a message")
        if top > l: self.bad("wrong", "a message of priority %d has been logged at level %d" % (top, l))
        if self.noisy and not n: self.bad("absent", "nothing has been logged about a file that could not be opened")
    def j_logbad(self, a, fired, res): self.failed("set_log_callback", fired, res, must=True)
    def j_version(self, a, fired, res):
        if not self.failed("version", fired, res) and not tok(res): self.bad("absent", "there is no version")
    def j_open(self, a, fired, res):
        m = self.dbs.get(a[1])
        if m == "?":
            if res != "err": self.unknown(a[0])
            return
        if not fired and a[1].endswith("junk.bin") and (getattr(self, "level", None) or 0) >= 3: self.noisy = True
        if self.failed("open", fired, res, must=m is None): return
        self.o[a[0]] = Obj("db", m=m)
    def j_close(self, a, fired, res):
        x = self.o.pop(a[0], None)
        if x and res == "err": self.bad("error", "closing failed")
    def j_meta(self, a, fired, res):
        d = self.using("meta", a[0], ("db",), fired, res)
        if not d or self.failed("meta", fired, res): return
        g = [tok(t) for t in res.split()]
        for k, v in zip(("vendor", "description", "license"), g):
            if (v or "") != d.m.meta.get(k, ""): self.bad("wrong", "%s is %r instead of %r" % (k, v, d.m.meta.get(k, "")))
        if len(g) > 3 and g[3] != d.m.created: self.bad("wrong", "created at %r instead of %r" % (g[3], d.m.created))
    def j_verify(self, a, fired, res):
        d = self.using("verify", a[0], ("db",), fired, res)
        if not d: return
        key = os.path.basename(a[1])
        ok = key.endswith(".pub") and key[:-4] in d.m.keys
        if res == "err":
            if ok and not fired: self.bad("error", "verify failed without any reason")
            return
        if tok(res) and not ok: self.bad("wrong", "verify accepted %s" % key)
        if not tok(res) and ok and not fired: self.bad("wrong", "verify did not accept %s" % key)
    def j_as(self, a, fired, res):
        d = self.using("get_as", a[1], ("db",), fired, res)
        n = int(a[2])
        if not d: return self.unknown(a[0]) if res not in ("err", "nil") else None
        if self.failed("get_as", fired, res, must=n > 2**32 - 1): return
        if n in d.m.ases: self.made("get_as", a[0], fired, res, Obj("as", num=n, name=d.m.ases[n]))
        else: self.none("get_as(%d)" % n, res)
    def j_country(self, a, fired, res):
        d = self.using("get_country", a[1], ("db",), fired, res)
        c = unhex(a[2])
        if not d: return self.unknown(a[0]) if res not in ("err", "nil") else None
        if self.failed("get_country", fired, res, may=not valid_cc(c)): return
        if c in d.m.countries: self.made("get_country", a[0], fired, res, Obj("country", code=c, cont=d.m.countries[c][0], name=d.m.countries[c][1]))
        else: self.none("get_country(%r)" % c, res)
    def j_lookup(self, a, fired, res):
        d = self.using("lookup", a[1], ("db",), fired, res)
        i = address(unhex(a[2]))
        if not d: return self.unknown(a[0]) if res not in ("err", "nil") else None
        if self.failed("lookup", fired, res, must=i is None, what=" (%s)" % unhex(a[2])): return
        e = d.m.lookup(i.version, int(i))
        if not e: return self.none("lookup(%s)" % i, res)
        if res == "nil": self.bad("absent", "lookup(%s) found nothing" % i)
        x = self.parse(res.split())
        first, p, attrs = e
        lo, hi = interval(*x.n)
        if x.n[0] != i.version or not lo <= int(i) <= hi or x.n[2] > p: self.bad("wrong", "lookup(%s) returned %s" % (i, x.__dict__))
        if (x.cc, x.asn, x.flags) != attrs: self.bad("wrong", "lookup(%s) returned %s instead of %s" % (i, x.__dict__, attrs))
        self.o[a[0]] = x
    def j_show(self, a, fired, res):
        x = self.using("show", a[0], ("net", "as", "country"), fired, res)
        if not x or self.failed("show", fired, res): return
        y = self.parse(res.split())
        if not self.same(y, x): self.bad("changed", "%s has become %s" % (x.__dict__, y.__dict__))
    # -- lists
    def j_list(self, a, fired, res):
        d = self.using("list", a[1], ("db",), fired, res)
        if not d: return self.unknown(a[0]) if res != "err" else None
        o = W.parse_opts(a[2:])
        ccs = [unhex(c) for c in o.get("cc", "").split(",") if c]
        if self.failed("list", fired, res, must=any(not valid_cc(c) for c in ccs)): return
        self.o[a[0]] = Obj("enum", m=d.m, k=o, got=[], done=False)
    def j_next(self, a, fired, res):
        e = self.using("next", a[0], ("enum",), fired, res)
        if not e:
            if res not in ("err", "nil"): self.unknown(a[1])
            return
        if e.done:
            if res not in ("err", "nil"): self.unknown(a[1])
            return
        if self.failed("next", fired, res):
            e.done = True
            return
        if res == "nil":
            e.done = True
            return self.complete(e)
        self.o[a[1]] = self.listed(e, res)
    def j_all(self, a, fired, res):
        """All that is left"""
        e = self.using("all", a[0], ("enum",), fired, res)
        if not e or e.done: return
        if self.failed("all", fired, res):
            e.done = True
            return
        for x in res.split(" ", 1)[1].split("|"):
            if x: self.listed(e, x)
        e.done = True
        self.complete(e)
    def listed(self, e, res):
        x = self.parse(res.split())
        e.got.append(x)
        if x.t == "net":
            fams, match = self.matching(e)
            if x.n[0] not in fams: self.bad("list", "%s is of another family" % x.__dict__)
            if e.k.get("kind") == "bogons":
                if (x.cc, x.asn, x.flags) != ("", 0, 0): self.bad("list", "%s is a bogon" % x.__dict__)
            elif not match((x.cc, x.asn, x.flags)): self.bad("list", "%s has not been searched for" % x.__dict__)
        if x.t == "as" and e.m.ases.get(x.num, None) != x.name: self.bad("wrong", "listed %s" % x.__dict__)
        if x.t == "country" and e.m.countries.get(x.code) != (x.cont, x.name): self.bad("wrong", "listed %s" % x.__dict__)
        return x
    def matching(self, e):
        o = e.k
        ccs, asns, fl = [unhex(c) for c in o.get("cc", "").split(",") if c], [int(x) for x in o.get("asns", "").split(",") if x], int(o.get("flags", "0"))
        fams = {"2": [4], "10": [6]}.get(o.get("family"), [4, 6])
        def match(v): return not (ccs or asns or fl) or v[0] in ccs or v[1] in asns or bool(v[2] & fl)
        return fams, match
    def complete(self, e):
        k = e.k.get("kind", "networks")
        self.w.checks += len(e.got)
        if k in ("ases", "search_as"):
            q = lower(unhex(e.k.get("q", "")))
            want = [n for n in sorted(e.m.ases) if q in lower(e.m.ases[n])]
            if [x.num if x.t == "as" else x.t for x in e.got] != want: self.bad("list", "%s returned %s instead of %s" % (k, [x.__dict__ for x in e.got][:8], want[:8]))
            return
        if k == "countries":
            if [x.code if x.t == "country" else x.t for x in e.got] != sorted(e.m.countries): self.bad("list", "countries are %s instead of %s" % ([x.__dict__ for x in e.got][:8], sorted(e.m.countries)[:8]))
            return
        if any(x.t != "net" for x in e.got): self.bad("list", "networks contain something else")
        fams, match = self.matching(e)
        if any(x.n[0] not in fams for x in e.got): self.bad("list", "networks of a wrong family")
        flat = k == "networks_flattened" or e.k.get("flatten") == "1"
        for fam in fams:
            mine = [x for x in e.got if x.n[0] == fam]
            if k == "bogons":
                known = [interval(*n) for n, v in e.m.nets.items() if n[0] == fam and v[0]]
                if not known: continue
                out, pos = [], 0
                for f, l in joined(known)[0]:
                    if pos < f: out.append((pos, f - 1))
                    pos = l + 1
                if pos <= TOP[fam]: out.append((pos, TOP[fam]))
                got, ov = joined([interval(*x.n) for x in mine])
                if fam == 6: out, got = minus(out, 6, V4MAPPED), minus(got, 6, V4MAPPED)
                if got != out or ov: self.bad("list", "bogons of IPv%d are wrong" % fam)
                continue
            if len({x.n for x in mine}) != len(mine): self.bad("list", "a network is listed more than once")
            def pieces(segs, m=lambda v: True):
                out = []
                for f, l, (p, v) in segs:
                    if not m(v): continue
                    if out and out[-1][1] + 1 == f and out[-1][2] == v: out[-1][1] = l
                    else: out.append([f, l, v])
                return out
            if not flat and not joined([interval(*x.n) for x in mine])[1]:
                # Networks inside of others are not cut out of them
                own = {(fam, f >> (b - p) << (b - p), p) for b in (32 if fam == 4 else 128,) for f, l, (p, v) in e.m.segments(fam) if match(v)}
                for p in own:
                    if any(n != p and e.m.nets[n] != e.m.nets[p] and interval(*p)[0] <= interval(*n)[0] and interval(*n)[1] <= interval(*p)[1] for n in own): self.bad("list", "%s is not listed in full" % (p,))
            got = pieces(e.m.segments(fam, {x.n: (x.cc, x.asn, x.flags) for x in mine}))
            if flat:
                if joined([interval(*x.n) for x in mine])[1]: self.bad("list", "flattened networks overlap")
                want = pieces(e.m.segments(fam), match)
            else: want = pieces(e.m.segments(fam, {n: v for n, v in e.m.nets.items() if n[0] == fam and match(v)}))
            if got != want: self.bad("list", "%s of IPv%d are not those of the database" % (k, fam))
    # -- objects of one's own
    def j_newnet(self, a, fired, res):
        n = network(unhex(a[1]))
        if self.failed("Network", fired, res, must=n is None, what=" (%s)" % unhex(a[1])): return
        self.made("Network", a[0], fired, res, Obj("net", n=n, cc="", asn=0, flags=0))
    def j_newas(self, a, fired, res):
        if self.failed("AS", fired, res, must=int(a[1]) > 2**32 - 1): return
        self.made("AS", a[0], fired, res, Obj("as", num=int(a[1]), name=""))
    def j_newcountry(self, a, fired, res):
        c = unhex(a[1])
        if self.failed("Country", fired, res, must=not valid_cc(c)): return
        self.made("Country", a[0], fired, res, Obj("country", code=c, cont="", name=""))
    def j_valid(self, a, fired, res):
        if tok(res) != valid_cc(unhex(a[0])): self.bad("wrong", "country_code_is_valid(%r) says %s" % (unhex(a[0]), res))
    def j_rp(self, a, fired, res):
        x = self.using("reverse_pointer", a[0], ("net",), fired, res)
        if not x or self.failed("reverse_pointer", fired, res): return
        fam, first, p = x.n
        if p % (8 if fam == 4 else 4): return self.none("reverse_pointer", res)
        s = unhex(a[1]) if len(a) > 1 else "in-addr.arpa." if fam == 4 else "ip6.arpa."
        lab = [str(b) for b in first.to_bytes(4, "big")[:p // 8]] if fam == 4 else list("%032x" % first)[:p // 4]
        w = ".".join((["*"] if p < (32 if fam == 4 else 128) else []) + lab[::-1] + [s])
        if tok(res) != w: self.bad("wrong", "the reverse pointer of %s/%d is %r instead of %r" % (fmt(fam, first), p, tok(res), w))
    def j_subnets(self, a, fired, res):
        x = self.using("subnets", a[0], ("net",), fired, res)
        if not x:
            if res != "err": self.unknown(a[1]); self.unknown(a[2])
            return
        fam, first, p = x.n
        bits = 32 if fam == 4 else 128
        if self.failed("subnets", fired, res, may=p == bits): return
        if p == bits: self.unknown(a[1]); self.unknown(a[2]); return
        t = res.split()
        h = len(t) // 2
        for s, y, f in ((a[1], t[:h], first), (a[2], t[h:], first | 1 << (bits - p - 1))):
            y = self.parse(y)
            if y.n != (fam, f, p + 1) or (y.cc, y.asn, y.flags) not in ((x.cc, x.asn, x.flags), ("", 0, 0)): self.bad("wrong", "%s is a subnet of %s" % (y.__dict__, x.__dict__))
            self.o[s] = y
    def j_exclude(self, a, fired, res):
        x, y = self.get(a[0], ("net",)), self.get(a[1], ("net",))
        if not x or not y or "?" in (x.t, y.t): return
        (lo, hi), (l2, h2) = interval(*x.n), interval(*y.n)
        if x.n[0] != y.n[0] or not (lo <= l2 and h2 <= hi) or x.n == y.n: return
        if self.failed("exclude", fired, res): return
        g = [network(tok(t)) for t in res.split()[1:]]
        if None in g: self.bad("text", "exclude returned something else than networks")
        got, ov = joined([interval(*n) for n in g])
        if got != minus([(lo, hi)], x.n[0], (l2, h2)) or ov: self.bad("wrong", "%s without %s is %s" % (x.n, y.n, [tok(t) for t in res.split()[1:]][:6]))
    def j_issub(self, a, fired, res):
        x, y = self.get(a[0], ("net",)), self.get(a[1], ("net",))
        if not x or not y or "?" in (x.t, y.t) or self.failed("is_subnet_of", fired, res): return
        (lo, hi), (l2, h2) = interval(*x.n), interval(*y.n)
        if x.n[0] != y.n[0]: return
        want = l2 <= lo and hi <= h2
        if tok(res) != want: self.bad("wrong", "%s is a subnet of %s: %s" % (x.n, y.n, res))
    def key(self, x): return x.num if x.t == "as" else x.code if x.t == "country" else (x.n[1] if x.n[0] == 6 else x.n[1] | 0xffff << 32, x.n[2] + (96 if x.n[0] == 4 else 0))
    def pair(self, op, a, fired, res):
        T = ("net", "as", "country")
        x, y = self.get(a[0], T), self.get(a[1], T)
        if not x or not y or "?" in (x.t, y.t) or x.t != y.t: return None
        if self.failed(op, fired, res): return None
        return self.key(x), self.key(y)
    def j_eq(self, a, fired, res):
        k = self.pair("==", a, fired, res)
        if k and tok(res) != (k[0] == k[1]): self.bad("wrong", "%s == %s: %s" % (k + (res,)))
    def j_lt(self, a, fired, res):
        k = self.pair("<", a, fired, res)
        if k and tok(res) != (k[0] < k[1]): self.bad("wrong", "%s < %s: %s" % (k + (res,)))
    def j_ne(self, a, fired, res):
        k = self.pair("!=", a, fired, res)
        if k and tok(res) != (k[0] != k[1]): self.bad("wrong", "%s != %s: %s" % (k + (res,)))
    def j_le(self, a, fired, res):
        k = self.pair("<=", a, fired, res)
        if k and tok(res) != (k[0] <= k[1]): self.bad("wrong", "%s <= %s: %s" % (k + (res,)))
    def j_gt(self, a, fired, res):
        k = self.pair(">", a, fired, res)
        if k and tok(res) != (k[0] > k[1]): self.bad("wrong", "%s > %s: %s" % (k + (res,)))
    def j_ge(self, a, fired, res):
        k = self.pair(">=", a, fired, res)
        if k and tok(res) != (k[0] >= k[1]): self.bad("wrong", "%s >= %s: %s" % (k + (res,)))
    def j_hasheq(self, a, fired, res):
        x = self.get(a[0], ("net", "as", "country"))
        k = self.pair("hash", a, fired, res) if x and x.t != "net" else None
        if k and k[0] == k[1] and not tok(res): self.bad("wrong", "%s has got two hashes" % k[0])
    def j_eqx(self, a, fired, res):
        x = self.using("==", a[0], ("net", "as", "country"), fired, res)
        if not x or self.failed("==", fired, res): return
        if [tok(t) for t in res.split()[1:]] != [False, True, False, False, True]: self.bad("wrong", "%s compares with something else as %s" % (self.key(x), res))
    def j_hash(self, a, fired, res): pass
    def j_packed(self, a, fired, res):
        x = self.using("first and last address", a[0], ("net",), fired, res)
        if not x or self.failed("_first_address", fired, res): return
        w = [i.to_bytes(4 if x.n[0] == 4 else 16, "big").hex() for i in interval(*x.n)]
        if [tok(t) for t in res.split()] != w: self.bad("wrong", "the addresses of %s are %s instead of %s" % (x.n, [tok(t) for t in res.split()], w))
    def j_repr(self, a, fired, res): pass
    def j_wrong(self, a, fired, res):
        if a[0] in WRONG_DB and not self.get(a[1], ("db",)): return
        if res != "err": self.bad("silent", "a wrong argument was accepted: %s" % a[0])
        if self.exc not in ("ValueError", "TypeError", "OverflowError", "OSError", "AttributeError", "IndexError", "UnicodeEncodeError"): self.bad("error", "a wrong argument (%s) raised %s" % (a[0], self.exc))
    def j_set(self, a, fired, res):
        x = self.using("set", a[0], ("net", "as", "country", "writer"), fired, res)
        if not x: return
        k = a[1]
        # The object may be of another type if it comes from a list
        if k not in {"net": ("asn", "flag", "country_code"), "as": ("name",), "country": ("name", "continent_code"), "writer": ("vendor", "description", "license")}[x.t]: return
        v = int(a[2]) if k in ("asn", "flag") else unhex(a[2])
        if k == "asn": good = 1 <= v <= 2**32 - 1
        elif k == "country_code": good = valid_cc(v)
        elif k == "continent_code": good = v in ("AF", "AN", "AS", "EU", "NA", "OC", "SA")
        else: good = True
        if self.failed("set " + k, fired, res, must=not good): return
        if x.t == "writer": x.meta[k] = v
        elif k == "asn": x.asn = v
        elif k == "flag": x.flags |= v
        elif k == "country_code": x.cc = v
        elif k == "continent_code": x.cont = v
        else: x.name = v
    # -- writing
    def j_wnew(self, a, fired, res):
        bad = any(k != "-" and not k.endswith(".pem") for k in a[1:])
        if self.failed("Writer", fired, res, must=bad): return
        self.o[a[0]] = Obj("writer", keys=[os.path.basename(k)[:-4] for k in a[1:] if k != "-"], meta={}, objs=[])
    def j_wmeta(self, a, fired, res):
        x = self.using("meta", a[0], ("writer",), fired, res)
        if not x or self.failed("meta", fired, res): return
        for k, v in zip(("vendor", "description", "license"), res.split()):
            if (tok(v) or "") != x.meta.get(k, ""): self.bad("wrong", "%s of the writer is %r" % (k, tok(v)))
    def add(self, op, a, fired, res, good, obj):
        x = self.using(op, a[1], ("writer",), fired, res)
        if not x: return self.unknown(a[0]) if res != "err" else None
        if self.failed(op, fired, res, must=not good): return
        self.made(op, a[0], fired, res, obj)
        x.objs.append(obj)
    def j_was(self, a, fired, res): self.add("add_as", a, fired, res, int(a[2]) <= 2**32 - 1, Obj("as", num=int(a[2]), name=""))
    def j_wcountry(self, a, fired, res): self.add("add_country", a, fired, res, valid_cc(unhex(a[2])), Obj("country", code=unhex(a[2]), cont="", name=""))
    def j_wnet(self, a, fired, res):
        n = network(unhex(a[2]))
        x = self.get(a[1], ("writer",))
        dup = x and x.t == "writer" and any(o.t == "net" and o.n == n for o in x.objs)
        self.add("add_network", a, fired, res, n and not dup, Obj("net", n=n, cc="", asn=0, flags=0))
    def j_write(self, a, fired, res):
        x = self.using("write", a[0], ("writer",), fired, res)
        if not x:
            if res != "err": self.dbs[a[1]] = "?"
            return
        if self.failed("write", fired, res, must="/missing/" in a[1]):
            self.dbs[a[1]] = "?"
            return
        m = Model()
        m.meta = dict(x.meta)
        for o in x.objs:
            if o.t == "net": m.nets[o.n] = (o.cc, o.asn, o.flags)
            elif o.t == "as": m.ases[o.num] = o.name
            else: m.countries[o.code] = (o.cont, o.name)
        m.keys = list(x.keys)
        m.created = self.w.S.now // 10**9
        self.dbs[a[1]] = m
    # -- Perl
    def value(self, op, a, fired, res, want, none=("",)):
        d = self.using(op, a[0], ("db",), fired, res)
        i = address(unhex(a[1]))
        if not d: return
        if i is None and res in ("nil", "err", "b:0"): return
        if self.failed(op, fired, res, must=i is None): return
        e = d.m.lookup(i.version, int(i))
        w = want(e[2]) if e else None
        if (tok(res) or None) != (w or None): self.bad("wrong", "%s of %s is %r instead of %r" % (op, i, tok(res), w))
    def j_cc(self, a, fired, res): self.value("the country", a, fired, res, lambda v: v[0])
    def j_asn(self, a, fired, res):
        if res == "i:0": self.bad("absent", "AS0 was returned for no AS")
        self.value("the AS", a, fired, res, lambda v: v[1])
    def j_flag(self, a, fired, res):
        if int(a[2]) > 3:
            if res != "err": self.bad("silent", "an invalid flag was accepted")
            return
        self.value("flag %s" % a[2], a, fired, res, lambda v: bool(v[2] & 1 << int(a[2])))
    def j_countries(self, a, fired, res):
        d = self.using("countries", a[0], ("db",), fired, res)
        if not d or self.failed("countries", fired, res): return
        g = [tok(t) for t in res.split()[1:]]
        if g != sorted(d.m.countries): self.bad("list", "the countries are %s instead of %s" % (g[:8], sorted(d.m.countries)[:8]))
    def named(self, op, a, fired, res, i):
        d = self.using(op, a[0], ("db",), fired, res)
        c = unhex(a[1])
        if not d or self.failed(op, fired, res, may=not valid_cc(c)): return
        w = d.m.countries.get(c, ("", ""))[i]
        if (tok(res) or "") != w: self.bad("wrong", "%s of %r is %r instead of %r" % (op, c, tok(res), w))
        if c not in d.m.countries: self.none(op, res)
    def j_cname(self, a, fired, res): self.named("the name", a, fired, res, 1)
    def j_cont(self, a, fired, res): self.named("the continent", a, fired, res, 0)
    def j_asname(self, a, fired, res):
        d = self.using("the name", a[0], ("db",), fired, res)
        if not d or self.failed("get_as_name", fired, res): return
        w = d.m.ases.get(int(a[1]))
        if (tok(res) or "") != (w or ""): self.bad("wrong", "the name of AS%s is %r instead of %r" % (a[1], tok(res), w))
        if w is None: self.none("get_as_name", res)
    def build(self, o):
        super().build(o)
        self.d.keys = ["k0"] if o.get("sign") else []

# --- plans
def generate(prop, seed, thorough):
    r = random.Random(seed)
    lang = r.choice(["lua", "lua", "python", "python", "perl"])
    L = ["run prop=C22 seed=%d now=%d rnd=%d lang=%s gc=%d gcseed=%d" % (seed, r.choice([r.randint(10**9, 2 * 10**9)] * 5 + [1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + r.randint(0, 999), r.randint(2 * 10**9, 9 * 10**9)]), r.randint(1, 2**40), lang, r.choice([0, 1, 3, 10, 50]) if lang == "lua" else 0, r.randint(1, 2**31))]
    ccs = r.sample(cli.CCS, r.randint(1, 5))
    asns = [r.choice([r.randint(1, 70000), r.randint(1, 2**32 - 1), 2**32 - 1, 2**31, 2**31 - 1]) for _ in range(r.randint(1, 5))]
    addrs, nets = ["8.8.8.8", "2001::1"], ["10.0.0.0/8", "2001:db8::/32", "192.0.2.1/32", "0.0.0.0/0", "::/0"]
    def hx(s): return s.encode().hex() or "00"
    def content():
        for f, first, p in cli.networks(r, r.choice([0, 1, 3, 8, 15] + ([60] if thorough else []))):
            o = []
            if r.random() < 0.85: o.append("cc=" + r.choice(ccs))
            if r.random() < 0.7: o.append("asn=%d" % r.choice(asns))
            if r.random() < 0.35: o.append("flags=%d" % r.choice([1, 2, 4, 8, r.randint(1, 15)]))
            L.append("net %s/%d %s" % (fmt(f, first), p, " ".join(o)))
            nets.append("%s/%d" % (fmt(f, first), p))
            a, b = interval(f, first, p)
            for x in (a, b, a - 1, b + 1, r.randint(a, b)):
                if 0 <= x <= TOP[f]: addrs.append(fmt(f, x))
        for c in ccs:
            if r.random() < 0.8: L.append("country %s%s%s" % (c, " cont=" + r.choice(["EU", "AS"]) if r.random() < 0.9 else "", " name=" + cli.name(r).encode().hex() if r.random() < 0.9 else ""))
        for a in asns:
            if r.random() < 0.8: L.append("as %d%s" % (a, " name=" + cli.name(r).encode().hex() if r.random() < 0.9 else ""))
        if r.random() < 0.6: L.append("meta vendor=%s description=%s license=%s" % tuple(cli.name(r).encode().hex() for _ in range(3)))
    files = []
    for i in range(r.choice([1, 1, 2])):
        if i: L.append("forget")
        content()
        L.append("build as=x%d%s" % (i, " sign=1" if r.random() < 0.4 else ""))
        files.append("@x%d" % i)
        if r.random() < 0.15:
            D = []
            for _ in range(r.choice([1, 1, 2, 5, 30])):
                z = r.random()
                if z < 0.6: D.append("%d:%d" % (r.randint(8, 72), r.choice([0, 1, 255, r.randint(0, 255)])))
                elif z < 0.97: D.append("%d:%d" % (r.randint(4168, 4168 + r.choice([100, 1000, 9000])), r.choice([0, 255, r.randint(0, 255)])))
                else: D.append("end:%d" % r.randint(0, 9000))
            L.append("damage y%d x%d %s" % (i, i, " ".join(D)))
            files.append("@y%d" % i)
    L.append("file junk %s" % bytes(r.getrandbits(8) for _ in range(r.choice([0, 10, 5000]))).hex())
    slots = {k: [] for k in "dnacew"}
    wfiles = []
    winfo = {}
    def fault(kinds=("alloc",), p=0.22):
        if r.random() > p: return ""
        k = r.choice(kinds)
        return " ! %s:%d%s" % (k, r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, r.randint(1, 25)]) if k == "alloc" else 1, "+" if k == "alloc" and r.random() < 0.2 else "")
    def emit(t, f=""):
        L.append("op " + ("rep " if r.random() < 0.06 and t.split()[0] in REP else "") + t + f)
        if f and r.random() < 0.6: L.append("op " + t)
    def new(k):
        if slots[k] and r.random() < 0.3: return r.choice(slots[k])
        s = "%s%d" % (k, len(slots[k]))
        slots[k].append(s)
        return s
    def some(k): return r.choice(slots[k]) if slots[k] else None
    def addr(): return hx(r.choice(addrs) if r.random() < 0.95 else r.choice(["a.b.c.d", "1.2.3", "", "::g"]))
    def cc(): return hx(r.choice(ccs) if r.random() < 0.8 else r.choice(cli.CCS + ["XX", "foo", "d", "de", "ZZ"]))
    def asn(): return r.choice(asns) if r.random() < 0.75 else r.choice([r.randint(1, 2**32 - 1), 1, 2**32 - 2])
    def netw():
        x = r.choice(nets)
        if r.random() < 0.4:
            f, first, p = net(x)
            bits = 32 if f == 4 else 128
            p = r.choice([p, p, 0, 8, 16, 24, 32, bits, r.randint(0, bits)])
            p = min(p, bits)
            x = "%s/%d" % (fmt(f, first >> (bits - p) << (bits - p) if p else 0), p)
        if r.random() < 0.05: x = r.choice(["foo", "1.2.3.4/33", "::/129", "", "1.2.3.4/-1", "1.2.3/8"])
        return x
    def open_():
        x = r.random()
        p = r.choice(files + wfiles) if x < 0.9 else r.choice(["@junk", "@nothing"])
        emit("open %s %s" % (new("d"), p), fault(("alloc", "alloc", "alloc", "fopen", "dup", "fdopen", "mmap"), 0.3))
    def log():
        emit("log %d" % r.choice([7, 6, 4, 3, 3, 2, 0]))
        if r.random() < 0.8: emit("open %s @junk" % new("d"))
        L.append("op logged")
    if lang == "lua" and r.random() < 0.15: log()
    open_()
    n = r.choice([5, 15, 30, 60])
    gcs = 0
    for _ in range(n):
        x = r.random()
        d = some("d")
        if lang == "perl":
            if x < 0.06 or not d: open_()
            elif x < 0.12: emit("meta " + d, fault())
            elif x < 0.18: emit("verify %s %s" % (d, r.choice(["%k0.pub", "%k0.pub", "%k1.pub", "%none.pub"])), fault(("alloc", "fopen")))
            elif x < 0.35: emit("cc %s %s" % (d, addr()), fault())
            elif x < 0.5: emit("asn %s %s" % (d, addr()), fault())
            elif x < 0.62: emit("flag %s %s %d" % (d, addr(), r.choice([0, 1, 2, 3, 3, 4]) if r.random() < 0.9 else 4), fault())
            elif x < 0.7: emit("countries " + d, fault())
            elif x < 0.78: emit("cname %s %s" % (d, cc()), fault())
            elif x < 0.84: emit("cont %s %s" % (d, cc()), fault())
            elif x < 0.95: emit("asname %s %d" % (d, asn()), fault())
            else: L.append("op close " + d)
            continue
        if x < 0.14:
            s = some(r.choice("dnacew"))
            if s and (s[0] != "w" or r.random() < 0.3): L.append("op drop " + s)
        elif x < 0.18: L.append("op gc")
        elif x < 0.24 or not d: open_()
        elif x < 0.38: emit("lookup %s %s %s" % (new("n"), d, addr()), fault())
        elif x < 0.43: emit("as %s %s %d" % (new("a"), d, asn()), fault())
        elif x < 0.48: emit("country %s %s %s" % (new("c"), d, cc()), fault())
        elif x < 0.51: emit("meta " + d, fault())
        elif x < 0.535: emit("verify %s %s" % (d, r.choice(["%k0.pub", "%k0.pub", "%k1.pub", "%none.pub"])), fault(("alloc", "fopen", "fdopen", "dup")))
        elif x < 0.58:
            e = new("e")
            k = ""
            if lang == "python":
                z = r.random()
                fam = r.choice(["", "", " family=2", " family=10"])
                if z < 0.45:
                    k = " kind=search" + fam
                    if r.random() < 0.6: k += " cc=" + ",".join(cc() for _ in range(r.randint(1, 3)))
                    if r.random() < 0.5: k += " asns=" + ",".join(str(asn()) for _ in range(r.randint(1, 3)))
                    if r.random() < 0.4: k += " flags=%d" % r.choice([1, 2, 4, 8, r.randint(1, 15)])
                    if r.random() < 0.4: k += " flatten=%d" % r.randint(0, 1)
                elif z < 0.55: k = " kind=bogons" + fam
                elif z < 0.65: k = " kind=search_as q=" + hx(r.choice(cli.WORDS))
                else: k = " kind=" + r.choice(["networks", "networks_flattened", "ases", "countries"])
            emit("list %s %s%s" % (e, d, k), fault(p=0.5 if "search" in k else 0.22))
            if r.random() < 0.35: emit("all " + e, fault(p=0.1))
            elif r.random() < 0.7:
                for _ in range(r.choice([1, 3, 10, 40])):
                    emit("next %s %s" % (e, r.choice(slots["n"][-2:]) if slots["n"] and r.random() < 0.5 else new("n")), fault(p=0.02))
                    if r.random() < 0.04: L.append("op drop " + r.choice([d, e]))
        elif x < 0.64 and slots["e"]: emit("next %s %s" % (some("e"), new("n")), fault(p=0.05))
        elif x < 0.70: emit("newnet %s %s" % (new("n"), hx(netw())), fault())
        elif x < 0.72: emit("newas %s %d" % (new("a"), asn()), fault())
        elif x < 0.74: emit("newcountry %s %s" % (new("c"), cc()), fault())
        elif x < 0.84:
            s = some(r.choice("nac"))
            if s: emit("show " + s)
        elif lang == "lua":
            z = r.random()
            s = some("n")
            if z < 0.4 and s: emit("rp %s%s" % (s, " " + hx("example.") if r.random() < 0.3 else ""), fault())
            elif z < 0.8 and s: emit("subnets %s %s %s" % (s, new("n"), new("n")), fault())
            elif z < 0.95 and len(slots["c"]) > 1: emit("eq %s %s" % (some("c"), some("c")))
            elif z > 0.985: log()
            elif z > 0.97: L.append("op " + r.choice(["logged", "logged", "logbad", "version"]))
        else:
            z = r.random()
            s = some("n")
            if z < 0.05 and s: emit("rp %s%s" % (s, " " + hx("example.") if r.random() < 0.3 else ""), fault())
            elif z < 0.12 and s: emit("exclude %s %s" % (s, some("n")), fault())
            elif z < 0.2:
                a, b = "n%d" % (len(slots["n"])), "n%d" % (len(slots["n"]) + 1)
                slots["n"] += [a, b]
                x = r.choice([y for y in nets if "foo" not in y])
                f, first, p = net(x)
                bits = 32 if f == 4 else 128
                q = min(bits, p + r.choice([1, 2, 5, 20]))
                in_ = (first | r.getrandbits(bits) & ((1 << (bits - p)) - 1)) >> (bits - q) << (bits - q)
                emit("newnet %s %s" % (a, hx(x)))
                emit("newnet %s %s" % (b, hx("%s/%d" % (fmt(f, in_), q))))
                emit("exclude %s %s" % (a, b), fault(p=0.5))
            elif z < 0.25 and s: emit("issub %s %s" % (s, some("n")))
            elif z < 0.32:
                k = r.choice("nac")
                if slots[k]: 
                    a, b = some(k), some(k)
                    if r.random() < 0.3: emit("eqx " + a)
                    # Another object that is the same
                    elif r.random() < 0.4:
                        v = {"n": lambda: hx(netw()), "a": asn, "c": cc}[k]()
                        a, b = new(k), new(k)
                        for y in (a, b): L.append("op %s %s %s" % ({"n": "newnet", "a": "newas", "c": "newcountry"}[k], y, v))
                    for o in r.sample(["eq", "lt", "ne", "le", "gt", "ge", "hasheq"], r.randint(1, 7)): L.append("op %s %s %s" % (o, a, b))
            elif z < 0.34:
                s = some(r.choice("nac"))
                if s: emit("%s %s" % (r.choice(["repr"] + (["hash"] if s[0] != "n" else ["packed"])), s))
            elif z < 0.42:
                s = some(r.choice("nac"))
                if s and s[0] == "n": emit("set %s %s" % (s, r.choice(["asn %d" % r.choice([asn(), 0, 2**32, asn()]), "flag %d" % r.choice([1, 2, 4, 8]), "country_code " + cc()])), fault())
                elif s and s[0] == "a": emit("set %s name %s" % (s, cli.name(r).encode().hex()), fault())
                elif s: emit("set %s %s" % (s, r.choice(["name " + cli.name(r).encode().hex(), "continent_code " + hx("EU")])), fault())
            elif z < 0.44: emit("valid " + cc())
            elif z < 0.5: emit("wrong %s %s" % (r.choice(WRONG), d))
            elif z < 0.58 or not slots["w"]:
                s = "w%d" % len(slots["w"])
                slots["w"].append(s)
                winfo[s] = [set(), False]
                f = fault(("alloc", "fdopen", "dup"), 0.3)
                emit("wnew %s %s" % (s, r.choice(["", "", "- -", "-", "%k0.pem", "%k0.pem %k1.pem", "- %k0.pem", "%k0.pem -", "%k0.pub"])), f)
                if f and r.random() < 0.7:
                    # Is it signed?
                    p = "@w%d" % len(wfiles)
                    wfiles.append(p)
                    winfo[s][1] = True
                    v = new("d")
                    for t in ("wnet %s %s %s" % (new("n"), s, hx(nets[2])), "write %s %s" % (s, p), "open %s %s" % (v, p), "verify %s %%k0.pub" % v, "verify %s %%k1.pub" % v): L.append("op " + t)
            else:
                s = some("w")
                for _ in range(r.choice([1, 3])):
                    z = r.random()
                    if winfo[s][1]: continue
                    if z < 0.2: emit("set %s %s %s" % (s, r.choice(["vendor", "description", "license"]), cli.name(r).encode().hex()), fault())
                    elif z < 0.25: emit("wmeta " + s, fault())
                    elif z < 0.4:
                        k = ("a", asn())
                        if k not in winfo[s][0]: winfo[s][0].add(k); emit("was %s %s %d" % (new("a"), s, k[1]), fault())
                    elif z < 0.55:
                        k = ("c", cc())
                        if k not in winfo[s][0]: winfo[s][0].add(k); emit("wcountry %s %s %s" % (new("c"), s, k[1]), fault())
                    else: emit("wnet %s %s %s" % (new("n"), s, hx(r.choice(nets[:3] + nets[5:] if r.random() < 0.97 else ["foo", "::/200"]))), fault())
                if r.random() < 0.3 and not winfo[s][1]:
                    p = "@w%d" % len(wfiles) if r.random() < 0.95 else "@missing/x"
                    emit("write %s %s" % (s, p), fault(("alloc", "fopen"), 0.4))
                    if "missing" not in p: wfiles.append(p)
                    winfo[s][1] = True
                    open_()
    return "\n".join(L) + "\n"

# C16 (exports), C19 (everything else the command line tool prints) and C23 (copies of databases)
import bisect, hashlib, ipaddress, os, random, re, select, shutil, struct, sys, time
import fsmodel as F
import world as W

FLAG = {"A1": 1, "A2": 2, "A3": 4, "XD": 8}
V4MAPPED = (0xffff << 32, (0xffff << 32) | 0xffffffff)
TOP = {4: (1 << 32) - 1, 6: (1 << 128) - 1}

class Model:
    def __init__(self):
        self.nets = {}        # (family, first, prefix) -> (cc, asn, flags)
        self.ases = {}
        self.countries = {}
        self.meta = {}
        self.created = None
    def copy(self):
        m = Model()
        m.nets, m.ases, m.countries, m.meta = dict(self.nets), dict(self.ases), dict(self.countries), dict(self.meta)
        return m
    def segments(self, fam, nets=None):
        """Non-overlapping (first, last, (prefix, attributes)) after longest prefix match"""
        nets = self.nets if nets is None else nets
        out = []
        stack = []
        bits = 32 if fam == 4 else 128
        pos = 0
        def close(upto):
            nonlocal pos
            while stack and stack[-1][1] < upto:
                f, l, a = stack.pop()
                if pos <= l: out.append((max(pos, f), l, a)); pos = l + 1
        for (f, first, p), a in sorted((k, v) for k, v in nets.items() if k[0] == fam):
            last = first | ((1 << (bits - p)) - 1)
            close(first)
            if stack and pos < first: out.append((max(pos, stack[-1][0]), first - 1, stack[-1][2]))
            pos = max(pos, first)
            stack.append((first, last, (p, a)))
        close(1 << 200)
        return [s for s in out if s[0] <= s[1]]
    def lookup(self, fam, addr):
        bits = 32 if fam == 4 else 128
        for p in range(bits, -1, -1):
            first = addr >> (bits - p) << (bits - p)
            a = self.nets.get((fam, first, p))
            if a: return (first, p, a)
        return None

def joined(iv):
    """Sorted, merged intervals; None if they overlap"""
    out = []
    overlap = False
    for f, l in sorted(iv):
        if out and f <= out[-1][1]: overlap = True
        if out and f <= out[-1][1] + 1: out[-1][1] = max(l, out[-1][1])
        else: out.append([f, l])
    return [tuple(x) for x in out], overlap

def minus(iv, fam, hole):
    """Intervals without the hole"""
    out = []
    for f, l in iv:
        if l < hole[0] or f > hole[1]: out.append((f, l)); continue
        if f < hole[0]: out.append((f, hole[0] - 1))
        if l > hole[1]: out.append((hole[1] + 1, l))
    return out

def net(s):
    n = ipaddress.ip_network(s)
    return (n.version, int(n.network_address), n.prefixlen)
def interval(fam, first, p): return (first, first | ((1 << ((32 if fam == 4 else 128) - p)) - 1))
def fmt(fam, a): return str((ipaddress.IPv4Address if fam == 4 else ipaddress.IPv6Address)(a))

class Cli:
    def __init__(self, w):
        self.w = w
        self.m = Model()      # what is being prepared
        self.d = None         # what is in the database
        self.P = w.prop
        self.last = None
    def line(self, words, faults):
        w = self.w
        k = words[0]
        o = W.parse_opts(words[1:])
        if k == "run":
            w.tz = o.get("tz", "UTC")
            w.rel = o.get("db") == "rel"
            w.S.reset(int(o.get("now", "1610000000")) * 10**9, int(o.get("rnd", "1")))
        elif k == "net":
            self.m.nets[net(words[1])] = (o.get("cc", ""), int(o.get("asn", "0")), int(o.get("flags", "0")))
        elif k == "as": self.m.ases[int(words[1])] = bytes.fromhex(o.get("name", "")).decode()
        elif k == "country": self.m.countries[words[1]] = (o.get("cont", ""), bytes.fromhex(o.get("name", "")).decode())
        elif k == "meta": self.m.meta.update({x: bytes.fromhex(y).decode() for x, y in o.items()})
        elif k == "set":
            if "now" in o: w.S.now = int(o["now"]) * 10**9
            if "tz" in o: w.tz = o["tz"]
        elif k == "build": self.build(o)
        elif self.d is None: pass
        elif k == "export": self.export(o, faults)
        elif k == "copy": self.copy(o, faults)
        elif k in ("lookup", "getas", "searchas", "countries", "byas", "bycc", "byflags", "bogons", "dump", "version"):
            getattr(self, k)(o, faults)
        elif k == "verify": self.verify(o, faults)
    def build(self, o):
        w = self.w
        m = self.m
        def make():
            import _location
            wr = _location.Writer(*([open(os.path.join(W.HERE, "keys", "k0.pem"))] if o.get("sign") else []))
            for k, v in m.meta.items(): setattr(wr, k, v)
            for n, name in m.ases.items():
                a = wr.add_as(n)
                if name: a.name = name
            for c, (cont, name) in m.countries.items():
                x = wr.add_country(c)
                if cont: x.continent_code = cont
                if name: x.name = name
            for (fam, first, p), (cc, asn, flags) in m.nets.items():
                n = wr.add_network("%s/%d" % (fmt(fam, first), p))
                if cc: n.country_code = cc
                if asn: n.asn = asn
                for b in (1, 2, 4, 8):
                    if flags & b: n.set_flag(b)
            tmp = os.path.join(w.root, "db", "new")
            wr.write(tmp)
            os.rename(tmp, w.db)
        lo = w.S.now // 10**9
        st, recs = w.run([], (), 1, None, make)
        if st: raise RuntimeError("could not create a database: " + w.stderr())
        self.d = m.copy()
        w.log("database", hashlib.sha256(w.content()).hexdigest()[:16] if not o.get("sign") else len(w.content()))
        self.d.created = int.from_bytes(w.content()[8:16], "big")
        self.d.signed = bool(o.get("sign"))
    # -- running it
    def tool(self, args, faults, o):
        """Runs the tool; returns (status, standard output, whether a fault hit it)"""
        w = self.w
        out = os.path.join(w.root, "out", "stdout")
        argv = ["--database", os.path.basename(w.db) if w.rel else w.db] + args
        w.ops += 1
        st, recs = w.run(argv, faults, 1, out)
        hit = [r for r in recs if r.op == F.FAULT]
        serious = [r for r in hit if r.err != -1 and r.a in (W.KINDS["open"], W.KINDS["write"], W.KINDS["close"])]
        if st < 0: w.fail(self.P, "crash: died from signal %d" % -st)
        if st == 125: raise RuntimeError(w.stderr())
        try: data = open(out, "rb").read()
        except FileNotFoundError: data = b""
        os.unlink(out)
        w.log("output", hashlib.sha256(data).hexdigest()[:16])
        if hit: w.errors += 1
        if serious and st == 0 and not o.get("again"):
            w.fail(self.P, "silent: reported success although %s failed with %s" % (W.KNAME[serious[0].a], os.strerror(serious[0].err)))
        w.shape("failed visibly" if serious else "with short writes" if hit else "undisturbed")
        return st, data, serious
    # -- export
    def objects(self, o):
        objs = [x for x in o.get("objs", "").split(",") if x]
        valid = [x for x in objs if re.match(r"^AS\d+$", x) or x in FLAG or re.match(r"^[A-WYZ][A-Z]$", x)]
        if not valid: valid = list(FLAG) + list(self.d.countries)
        return objs, list(dict.fromkeys(valid))
    def wanted(self, obj, fam):
        out = []
        for f, l, (p, (cc, asn, flags)) in self.d.segments(fam):
            if obj in FLAG: hit = flags & FLAG[obj]
            elif obj.startswith("AS") and len(obj) > 2: hit = asn == int(obj[2:])
            else: hit = cc == obj
            if hit: out.append((f, l))
        return joined(out)[0]
    def parse(self, fmtname, data, fam=None, tag=None):
        """Networks in an exported file; with their tags, as they are read by whoever loads them"""
        out = []
        if fmtname == "xt_geoip":
            n = 4 if fam == 4 else 16
            if len(data) % (2 * n): return "its size is no multiple of %d" % (2 * n)
            for i in range(0, len(data), 2 * n):
                f, l = int.from_bytes(data[i:i + n], "big"), int.from_bytes(data[i + n:i + 2 * n], "big")
                if f > l: return "a range ends before it starts"
                out.append((tag, fam, f, l))
            if [x[2] for x in out] != sorted(x[2] for x in out): return "ranges are not sorted"
            return out
        try: text = data.decode()
        except UnicodeDecodeError: return "it is no text"
        if text and not text.endswith("\n"): return "the last line is incomplete"
        cur, fl, size, count = None, None, 0, 0
        for l in text.split("\n")[:-1]:
            if fmtname == "list": n = l; t = tag
            elif fmtname == "ipset":
                m = re.match(r"^create (\S+) hash:net family (inet6?) hashsize +(\d+) maxelem (\d+) -exist$", l)
                if m:
                    if cur is not None and count > size: return "more elements than the set can hold"
                    cur, fl, size, count = m.group(1), 6 if m.group(2) == "inet6" else 4, int(m.group(4)), 0
                    h = int(m.group(3))
                    if h & (h - 1) or not h: return "invalid hash size %d" % h
                    continue
                m = re.match(r"^flush (\S+)$", l)
                if m:
                    if m.group(1) != cur: return "flushes an unknown set"
                    continue
                m = re.match(r"^add (\S+) (\S+)$", l)
                if not m: return "line '%s' makes no sense" % l[:80]
                if m.group(1) != cur: return "adds to an unknown set"
                t, n = m.group(1), m.group(2)
                count += 1
                if ("%s" % n).count(":") and fl == 4 or not n.count(":") and fl == 6: return "wrong family"
            elif fmtname == "nftables":
                m = re.match(r"^define (\S+) = \{$", l)
                if m:
                    if cur is not None: return "a set within a set"
                    cur = m.group(1)
                    continue
                if l == "}":
                    if cur is None: return "a closing bracket too much"
                    cur = None
                    continue
                m = re.match(r"^\s+(\S+),$", l)
                if not m or cur is None: return "line '%s' makes no sense" % l[:80]
                t, n = cur, m.group(1)
            try: fa, first, p = net(n)
            except ValueError: return "'%s' is no network" % n[:80]
            out.append((t, fa) + interval(fa, first, p))
        if fmtname == "nftables" and cur is not None: return "a set is not closed"
        if fmtname == "ipset" and cur is not None and count > size: return "more elements than the set can hold"
        return out
    def compare(self, what, got, want, prop, exact=True):
        """got: list of (first, last), want: merged intervals"""
        w = self.w
        g, overlap = joined(got)
        w.checks += 1
        if exact and overlap: w.fail(prop, "overlap: %s lists some addresses more than once" % what)
        if g == want: return
        ws, gs = want, g
        for f, l in gs:
            i = bisect.bisect_right(ws, (f, 1 << 200)) - 1
            if i < 0 or ws[i][1] < l or ws[i][0] > f: w.fail(prop, "extra: %s contains addresses that do not belong there (%x-%x)" % (what, f, l))
        w.fail(prop, "missing: %s lacks addresses" % what)
    def export(self, o, faults):
        w = self.w
        f = o.get("format", "list")
        objs, valid = self.objects(o)
        args = ["export", "--format", f]
        fams = {"ipv4": [4], "ipv6": [6]}.get(o.get("family"), [6, 4])
        if o.get("family"): args += ["--family", o["family"]]
        d = None
        if o.get("dir"):
            d = os.path.join(w.root, "out", "d" + o["dir"])
            if o["dir"] != "missing": os.makedirs(d, exist_ok=True)
            args += ["--directory", d]
        args += objs
        # If something is selected twice, the same file is written twice: then only the outcome counts
        if len(set(objs)) < len(objs): o = dict(o, again="1")
        st, data, serious = self.tool(args, faults, o)
        if st:
            binary = f == "xt_geoip" and not d
            if not serious and not binary and o.get("dir") != "missing": w.fail("C16", "failed: the export failed without any reason (status %d)" % st)
            return
        if o.get("dir") == "missing": w.fail("C16", "silent: reported success although the directory does not exist")
        suffix = {"list": "networks", "ipset": "ipset", "nftables": "set"}
        if d:
            for fam in fams:
                for x in valid:
                    n = "%s.iv%d" % (x, fam) if f == "xt_geoip" else "%sv%d.%s" % (x, fam, suffix[f])
                    try: c = open(os.path.join(d, n), "rb").read()
                    except FileNotFoundError: w.fail("C16", "missing: there is no file %s" % n)
                    p = self.parse(f, c, fam, "%sv%d" % (x, fam))
                    if isinstance(p, str): w.fail("C16", "malformed: %s: %s" % (n, p))
                    if f in ("ipset", "nftables") and not c: w.fail("C16", "malformed: %s is empty" % n)
                    if any(y[0] != "%sv%d" % (x, fam) for y in p): w.fail("C16", "tag: %s belongs to a set with a wrong name" % n)
                    if any(y[1] != fam for y in p): w.fail("C16", "family: %s has networks of the wrong family" % n)
                    self.compare(n, [y[2:] for y in p], self.wanted(x, fam), "C16")
        elif f == "xt_geoip": w.fail("C16", "silent: reported success although nothing was exported")
        else:
            p = self.parse(f, data)
            if isinstance(p, str): w.fail("C16", "malformed: %s" % p)
            for fam in (4, 6):
                if fam not in fams:
                    if any(y[1] == fam for y in p): w.fail("C16", "family: the output has networks of the wrong family")
                    continue
                if f == "list":
                    # every address as often as there are sets it belongs to
                    ev = {}
                    for y in p:
                        if y[1] == fam: ev[y[2]] = ev.get(y[2], 0) + 1; ev[y[3] + 1] = ev.get(y[3] + 1, 0) - 1
                    for x in valid:
                        for a, b in self.wanted(x, fam): ev[a] = ev.get(a, 0) - 1; ev[b + 1] = ev.get(b + 1, 0) + 1
                    w.checks += 1
                    bad = [a for a, v in sorted(ev.items()) if v]
                    if bad: w.fail("C16", "wrong: the exported networks are not those of the database around %s" % fmt(fam, min(bad[0], TOP[fam])))
                else:
                    for x in valid:
                        self.compare("%sv%d" % (x, fam), [y[2:] for y in p if y[0] == "%sv%d" % (x, fam)], self.wanted(x, fam), "C16")
                    names = {"%sv%d" % (x, k) for x in valid for k in fams}
                    if any(y[0] not in names for y in p): w.fail("C16", "tag: a set with an unknown name")
    # -- queries
    def answer(self, st, want, serious, what):
        if serious: return False
        if st != want: self.w.fail("C19", "status: %s ended with status %d instead of %d" % (what, st, want))
        return True
    def lookup(self, o, faults):
        w = self.w
        addrs = o["a"].split(",")
        st, data, serious = self.tool(["lookup"] + addrs, faults, o)
        exp = []
        for a in addrs:
            i = ipaddress.ip_address(a)
            if i.version == 6 and i.ipv4_mapped: i = i.ipv4_mapped
            exp.append((a, self.d.lookup(i.version, int(i)), i))
        if not self.answer(st, 0 if all(e[1] for e in exp) else 1, serious, "a lookup"): return
        blocks = []
        for l in data.decode().split("\n")[:-1]:
            if not l.startswith("  "): blocks.append((l[:-1], {}))
            else:
                k, _, v = l.partition(": ")
                blocks[-1][1][k.strip()] = v
        hits = [e for e in exp if e[1]]
        w.checks += len(addrs)
        if [b[0] for b in blocks] != [e[0] for e in hits]: w.fail("C19", "lookup: answers for %r instead of %r" % ([b[0] for b in blocks][:5], [e[0] for e in hits][:5]))
        for (a, b), (_, (first, p, (cc, asn, flags)), i) in zip(blocks, hits):
            try: n = ipaddress.ip_network(b.get("Network", ""))
            except ValueError: w.fail("C19", "lookup: no network in the answer for %s" % a)
            if n.version != i.version or i not in n or n.prefixlen > p: w.fail("C19", "lookup: %s is reported for %s" % (n, a))
            if self.d.lookup(i.version, int(i)) and n.prefixlen < p:
                # equal networks have been merged: all of what is reported must have the same properties unless something more specific exists
                pass
            c = None
            if cc: c = (self.d.countries.get(cc) or ("", ""))[1] if cc in self.d.countries else cc
            if b.get("Country") != c: w.fail("C19", "lookup: country of %s is %r instead of %r" % (a, b.get("Country"), c))
            s = None
            if asn: s = "AS%d - %s" % (asn, self.d.ases[asn]) if asn in self.d.ases else "AS%d" % asn
            g = b.get("Autonomous System")
            if (g or "").rstrip(" -") != (s or "").rstrip(" -"): w.fail("C19", "lookup: AS of %s is %r instead of %r" % (a, g, s))
            for k, bit in (("Anonymous Proxy", 1), ("Satellite Provider", 2), ("Anycast", 4), ("Hostile Network safe to drop", 8)):
                if (b.get(k) == "yes") != bool(flags & bit): w.fail("C19", "lookup: '%s' of %s is wrong" % (k, a))
    def getas(self, o, faults):
        nums = o["n"].split(",")
        st, data, serious = self.tool(["get-as"] + nums, faults, o)
        bad = [n for n in nums if not n.isdigit() or int(n) not in self.d.ases]
        if not self.answer(st, 1 if bad else 0, serious, "get-as"): return
        got = data.decode().split("\n")[:-1]
        want = ["AS%d belongs to %s" % (int(n), self.d.ases[int(n)]) for n in nums if n not in bad]
        self.w.checks += len(nums)
        if got != want: self.w.fail("C19", "get-as: %r instead of %r" % (got[:3], want[:3]))
    def searchas(self, o, faults):
        q = bytes.fromhex(o["q"]).decode()
        st, data, serious = self.tool(["search-as", q], faults, o)
        if not self.answer(st, 0, serious, "search-as"): return
        low = lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
        want = sorted("AS%d - %s" % (n, s) for n, s in self.d.ases.items() if s and low(q) in low(s))
        got = sorted(data.decode().split("\n")[:-1])
        self.w.checks += 1
        if got != want: self.w.fail("C19", "search-as: %d matches instead of %d" % (len(got), len(want)))
    def countries(self, o, faults):
        args = ["list-countries"]
        if o.get("name"): args.append("--show-name")
        if o.get("cont"): args.append("--show-continent")
        st, data, serious = self.tool(args, faults, o)
        if not self.answer(st, 0, serious, "list-countries"): return
        want = []
        for c, (cont, name) in sorted(self.d.countries.items()):
            l = [c]
            if o.get("cont"): l.append(cont)
            if o.get("name"): l.append(name)
            want.append(" ".join(l))
        got = sorted(data.decode().split("\n")[:-1])
        self.w.checks += 1
        if got != want: self.w.fail("C19", "list-countries: %r instead of %r" % (got[:4], want[:4]))
    def listing(self, args, o, faults, match, what):
        f = o.get("format", "list")
        if o.get("family"): args += ["--family", o["family"]]
        args += ["--format", f]
        st, data, serious = self.tool(args, faults, o)
        if f == "xt_geoip" or f == "ipset" and not o.get("family"):
            # cannot be printed
            if st == 0 and f == "ipset": self.w.fail("C19", "status: %s reported success for a set without family" % what)
            return
        if not self.answer(st, 0, serious, what): return
        p = self.parse(f, data)
        if isinstance(p, str): self.w.fail("C19", "malformed: %s: %s" % (what, p))
        for fam in (4, 6):
            if o.get("family") and o["family"] != "ipv%d" % fam:
                if any(y[1] == fam for y in p): self.w.fail("C19", "family: %s has networks of the wrong family" % what)
                continue
            want = match(fam)
            if want is None: continue
            got = [y[2:] for y in p if y[1] == fam]
            if what == "list-bogons" and fam == 6: got = minus(got, 6, V4MAPPED)
            self.compare(what, got, want, "C19", False)
    def union(self, cond):
        return lambda fam: joined([interval(fam, k[1], k[2]) for k, v in self.d.nets.items() if k[0] == fam and cond(*v)])[0]
    def byas(self, o, faults):
        n = int(o["n"])
        self.listing(["list-networks-by-as", str(n)], o, faults, self.union(lambda cc, asn, fl: asn == n), "list-networks-by-as")
    def bycc(self, o, faults):
        self.listing(["list-networks-by-cc", o["c"]], o, faults, self.union(lambda cc, asn, fl: cc == o["c"]), "list-networks-by-cc")
    def byflags(self, o, faults):
        x = int(o["f"])
        args = ["list-networks-by-flags"] + [n for n, b in (("--anonymous-proxy", 1), ("--satellite-provider", 2), ("--anycast", 4), ("--drop", 8)) if x & b]
        self.listing(args, o, faults, self.union(lambda cc, asn, fl: fl & x), "list-networks-by-flags")
    def bogons(self, o, faults):
        def match(fam):
            nets = [interval(fam, k[1], k[2]) for k, v in self.d.nets.items() if k[0] == fam and v[0]]
            if not any(v[0] for k, v in self.d.nets.items() if k[0] == fam): return None
            out, pos = [], 0
            for f, l in joined(nets)[0]:
                if pos < f: out.append((pos, f - 1))
                pos = l + 1
            if pos <= TOP[fam]: out.append((pos, TOP[fam]))
            return out if fam == 4 else minus(out, 6, V4MAPPED)
        self.listing(["list-bogons"], o, faults, match, "list-bogons")
    def version(self, o, faults):
        st, data, serious = self.tool(["version"], faults, o)
        if not self.answer(st, 0, serious, "version"): return
        self.w.checks += 1
        if data.strip() != W.stamp(self.d.created): self.w.fail("C19", "version: %r" % data[:60])
    def verify(self, o, faults):
        # with the key of somebody else or our own
        k = o.get("key", "0")
        st, data, serious = self.tool(["--public-key", os.path.join(W.HERE, "keys", "k%s.pub" % k), "verify"], faults, o)
        want = self.d.signed and k == "0"
        self.w.checks += 1
        if not serious and (st == 0) != want: self.w.fail("C19", "verify: ended with status %d" % st)
    def dump(self, o, faults):
        w = self.w
        args = ["dump"]
        f = None
        if o.get("file"):
            f = os.path.join(w.root, "out", "dump")
            args.append(f)
        st, data, serious = self.tool(args, faults, o)
        if not self.answer(st, 0, serious, "dump"): return
        if f: data = open(f, "rb").read()
        text = data.decode()
        if not text.endswith("\n"): w.fail("C19", "dump: the last line is incomplete")
        ases, nets, cur = {}, {}, None
        for l in text.split("\n")[:-1]:
            if l.startswith("#"): continue
            if not l: cur = None; continue
            k, _, v = l.partition(":")
            v = v.strip()
            if cur is None:
                if k == "aut-num": cur = ("as", int(v[2:])); ases[cur[1]] = None
                elif k == "net":
                    cur = ("net", net(v))
                    if cur[1] in nets: w.fail("C19", "dump: %s is listed more than once" % v)
                    nets[cur[1]] = ["", 0, 0]
                else: w.fail("C19", "dump: unexpected line '%s'" % l[:60])
            elif cur[0] == "as" and k == "name": ases[cur[1]] = v
            elif cur[0] == "net" and k == "country": nets[cur[1]][0] = v
            elif cur[0] == "net" and k == "aut-num": nets[cur[1]][1] = int(v)
            elif cur[0] == "net" and k in ("is-anonymous-proxy", "is-satellite-provider", "is-anycast", "drop"):
                nets[cur[1]][2] |= {"is-anonymous-proxy": 1, "is-satellite-provider": 2, "is-anycast": 4, "drop": 8}[k]
            else: w.fail("C19", "dump: unexpected line '%s'" % l[:60])
        w.checks += 1 + len(ases)
        if ases != {n: s.strip() for n, s in self.d.ases.items()}: w.fail("C19", "dump: the ASes are not those of the database")
        for fam in (4, 6):
            def pieces(segs):
                out = []
                for f, l, (p, a) in segs:
                    if out and out[-1][1] + 1 == f and out[-1][2] == a: out[-1][1] = l
                    else: out.append([f, l, a])
                return out
            a = pieces(self.d.segments(fam))
            b = pieces(self.d.segments(fam, {k: tuple(v) for k, v in nets.items()}))
            w.checks += 1
            if a != b: w.fail("C19", "dump: the IPv%d networks do not describe the database" % fam)
        if self.d.meta.get("vendor") and ("# Vendor:    %s" % self.d.meta["vendor"]) not in text: w.fail("C19", "dump: the vendor is missing")
        for l in self.d.meta.get("description", "").splitlines():
            if ("# %s" % l).rstrip() + "\n" not in text: w.fail("C19", "dump: the description is missing")

    # -- copies
    def copy(self, o, faults):
        w = self.w
        src, d = w.db, self.d
        if o.get("src") == "missing": src = os.path.join(w.root, "db", "nothing.db")
        elif o.get("src") == "last" and self.last: src, d = self.last
        elif o.get("src") == "bad":
            src = os.path.join(w.root, "out", "bad.db")
            open(src, "wb").write(w.content()[:int(o.get("len", "0"))])
        dst = os.path.join(w.root, "out", "copy%s.db" % o.get("n", "0"))
        if o.get("dst") == "missing": dst = os.path.join(w.root, "out", "missing", "copy.db")
        if o.get("junk") and o.get("dst") != "missing" and dst != src: open(dst, "wb").write(b"x" * int(o["junk"]))
        before = w.content()
        def go():
            sys.argv = ["copy", src, dst]
            exec(W.COPY, {"__name__": "__main__", "__builtins__": __builtins__})
        w.ops += 1
        lo = w.S.now // 10**9
        st, recs = w.run([], faults, 1, None, go)
        hi = w.S.now // 10**9
        hit = [r for r in recs if r.op == F.FAULT]
        serious = [r for r in hit if r.err != -1]
        w.checks += 1
        if hit: w.errors += 1
        if st < 0: w.fail("C23", "crash: died from signal %d" % -st)
        if w.content() != before: w.fail("C23", "source: the original has been modified")
        bad = o.get("src") == "bad" or o.get("src") == "missing" or o.get("dst") == "missing"
        w.shape("copy " + ("of nothing" if bad else "failed visibly" if serious else "with short writes" if hit else "undisturbed"))
        if st == 0 and serious: w.fail("C23", "silent: reported success although %s failed with %s" % (W.KNAME[serious[0].a], os.strerror(serious[0].err)))
        if bad and st == 0 and o.get("src") != "bad": w.fail("C23", "silent: reported success although there is nothing to copy, or no place for it")
        if self.last and dst == self.last[0]: self.last = None
        if st:
            if not serious and not bad: w.fail("C23", "failed: the copy failed without any reason (status %d): %s" % (st, " ".join(w.stderr().split("\n")[-2:])))
            return
        if bad: return
        self.last = (dst, d)
        self.same(dst, d, lo, hi)
    def same(self, path, d, lo, hi):
        """A copy says what the original has been told"""
        w = self.w
        try: db = W.location.Database(path)
        except Exception as e: w.fail("C23", "unreadable: the copy cannot be opened: %s" % e)
        for k in ("vendor", "description", "license"):
            if (getattr(db, k) or "") != d.meta.get(k, ""): w.fail("C23", "metadata: %s is %r instead of %r" % (k, getattr(db, k), d.meta.get(k, "")))
        if not lo <= db.created_at <= hi: w.fail("C23", "metadata: created at %d" % db.created_at)
        with open(os.path.join(W.HERE, "keys", "k0.pub")) as f:
            if db.verify(f): w.fail("C23", "signature: nobody has signed the copy, but it can be verified")
        got = [(a.number, a.name or "") for a in db.ases]
        want = sorted(d.ases.items())
        if got != want: w.fail("C23", "as: %s" % first(got, want))
        got = [(c.code, c.continent_code or "", c.name or "") for c in db.countries]
        want = sorted((c, a, b) for c, (a, b) in d.countries.items())
        if got != want: w.fail("C23", "country: %s" % first(got, want))
        for n, s in d.ases.items():
            a = db.get_as(n)
            if a is None or (a.name or "") != s: w.fail("C23", "as: AS%d cannot be found" % n)
        for c, (a, b) in d.countries.items():
            x = db.get_country(c)
            if x is None or (x.name or "") != b: w.fail("C23", "country: %s cannot be found" % c)
        pts = set()
        for fam, f, p in d.nets:
            a, b = interval(fam, f, p)
            for x in (a, b, a - 1, b + 1, a + (b - a) // 3):
                if 0 <= x <= TOP[fam] and not (fam == 6 and V4MAPPED[0] <= x <= V4MAPPED[1]): pts.add((fam, x))
        for fam, x in sorted(pts):
            e = d.lookup(fam, x)
            n = db.lookup(fmt(fam, x))
            w.checks += 1
            if (n is None) != (e is None): w.fail("C23", "lookup: %s is %s" % (fmt(fam, x), "not found" if n is None else "found as %s" % n))
            if n is None: continue
            g = (n.country_code or "", n.asn or 0, sum(b for b in (1, 2, 4, 8) if n.has_flag(b)))
            if g != e[2]: w.fail("C23", "lookup: %s is %r instead of %r" % (fmt(fam, x), g, e[2]))
        # and the whole list
        got = {4: [], 6: []}
        for n in db.networks:
            fam, f, p = net("%s" % n)
            got[fam].append(interval(fam, f, p) + ((n.country_code or "", n.asn or 0, sum(b for b in (1, 2, 4, 8) if n.has_flag(b))),))
        for fam in (4, 6):
            def pieces(l):
                out = []
                for f, l, a in l:
                    if out and out[-1][1] + 1 == f and out[-1][2] == a: out[-1][1] = l
                    else: out.append([f, l, a])
                return out
            w.checks += 1
            nets = {(fam, f, ((32 if fam == 4 else 128) - (l - f).bit_length())): a for f, l, a in got[fam]}
            if len(nets) != len(got[fam]): w.fail("C23", "networks: something is listed more than once")
            if pieces((f, l, a) for f, l, (p, a) in d.segments(fam, nets)) != pieces((f, l, a) for f, l, (p, a) in d.segments(fam)): w.fail("C23", "networks: the IPv%d networks of the copy do not describe the database" % fam)

def first(got, want):
    for g, e in zip(got, want):
        if g != e: return "%r instead of %r" % (g, e)
    return "%d instead of %d" % (len(got), len(want))

# --- plans
CCS = ["DE", "FR", "US", "AT", "CH", "GB", "NZ", "EU", "AP", "CN"]
WORDS = ["Deutsche", "Telekom", "AG", "Ünïcode", "GmbH", "net", "NET", "Inc.", "of", "the", "日本", "a", "#", "AS", "-", ":"]

def name(r):
    x = r.random()
    if x < 0.05: return "x" * r.choice([200, 5000])
    return " ".join(r.choice(WORDS) for _ in range(r.randint(1, 5)))

def networks(r, n):
    out = {}
    roots4 = [(r.randint(1, 223) << 24) | (r.randint(0, 255) << 16) for _ in range(r.randint(1, 3))]
    roots6 = [(0x20010000 | r.randint(0, 0xffff)) << 96 for _ in range(r.randint(1, 2))]
    prev = []
    while len(out) < n:
        if r.random() < 0.55: fam, bits, roots = 4, 32, roots4
        else: fam, bits, roots = 6, 128, roots6
        x = r.random()
        mine = [k for k in prev if k[0] == fam]
        if mine and x < 0.6:
            f, first, p = r.choice(mine)
            y = r.random()
            if y < 0.45 and p < bits:         # inside
                p2 = min(bits, p + r.choice([1, 1, 1, 2, 3, 8, 24]))
                first |= r.getrandbits(bits) & ((1 << (bits - p)) - 1) if r.random() < 0.6 else (0 if r.random() < 0.5 else (1 << (bits - p)) - 1)
                p = p2
            elif y < 0.75: first ^= 1 << (bits - p)        # its neighbour
            elif y < 0.9 and p > 9: p -= r.choice([1, 1, 2])      # around
            else: first += 1 << (bits - p)
        else:
            first = r.choice(roots) | r.getrandbits(bits - (16 if fam == 4 else 32))
            p = r.choice([24, 22, 16, 20, 32, 31, 25] if fam == 4 else [32, 48, 64, 56, 128, 33, 127, 36])
        if p < 8 or first < 0 or first > TOP[fam]: continue
        first = first >> (bits - p) << (bits - p)
        if fam == 6 and first >> 120 == 0: continue
        if fam == 4 and not 1 << 24 <= first < 224 << 24: continue
        k = (fam, first, p)
        if k in out: continue
        out[k] = 1
        prev.append(k)
    return list(out)

def generate(prop, seed, thorough):
    r = random.Random(seed)
    from update import TZS
    L = ["run prop=%s seed=%d tz=%s now=%d rnd=%d db=%s" % (prop, seed, r.choice(TZS), r.choice([r.randint(10**9, 2 * 10**9)] * 5 + [1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 + r.randint(0, 999), r.randint(2 * 10**9, 9 * 10**9)]), r.randint(1, 2**40), r.choice(["abs", "rel"]))]
    ccs = r.sample(CCS, r.randint(1, 5))
    asns = [r.choice([r.randint(1, 70000), r.randint(1, 20), r.randint(1, 2**32 - 1), 2**32 - 1, 2**31]) for _ in range(r.randint(1, 4))]
    addrs = []
    def content(k):
        for f, first, p in networks(r, k):
            o = []
            if r.random() < 0.85: o.append("cc=" + r.choice(ccs))
            if r.random() < 0.7: o.append("asn=%d" % r.choice(asns))
            if r.random() < 0.35: o.append("flags=%d" % r.choice([1, 2, 4, 8, 8, 3, 15, r.randint(1, 15)]))
            L.append("net %s/%d %s" % (fmt(f, first), p, " ".join(o)))
            a, b = interval(f, first, p)
            for x in (a, b, a - 1, b + 1, r.randint(a, b)):
                if 0 <= x <= TOP[f]: addrs.append(fmt(f, x))
        for c in ccs:
            if r.random() < 0.8: L.append("country %s cont=%s name=%s" % (c, r.choice(["EU", "AS", "NA"]), name(r).encode().hex()))
            elif prop == "C23": L.append("country %s%s" % (c, r.choice(["", " cont=EU", " name=" + name(r).encode().hex()])))
        for a in asns:
            if prop == "C23" and r.random() < 0.1: L.append("as %d" % a)
            elif r.random() < 0.8: L.append("as %d name=%s" % (a, name(r).encode().hex()))
        if prop in ("C19", "C23"):
            for _ in range(r.choice([0, 0, 5, 40])): L.append("as %d name=%s" % (r.randint(1, 2**32 - 1), name(r).encode().hex()))
            if r.random() < 0.5: L.append("meta vendor=%s description=%s license=%s" % (name(r).encode().hex(), (name(r) + "\n" + name(r)).encode().hex(), name(r).encode().hex()))
            elif prop == "C23" and r.random() < 0.5: L.append("meta %s=%s" % (r.choice(["vendor", "description", "license"]), name(r).encode().hex()))
    n = r.choice([1, 3, 8, 20, 20, 60] + ([200, 600] if r.random() < 0.15 else []))
    content(n)
    L.append("build" + (" sign=1" if r.random() < 0.3 else ""))
    fmts = ["list", "ipset", "nftables", "xt_geoip"]
    def fault():
        k = r.choice(["open", "write", "write", "write", "close", "cap"])
        if k == "cap": return "cap:%d" % r.choice([0, 1, 10, 100, 1000, r.randint(0, 20000)])
        e = {"open": ["ENOSPC", "EACCES", "EMFILE", "EROFS"], "write": ["ENOSPC", "EIO", "EDQUOT", "EPIPE", "short", "short"], "close": ["EIO", "ENOSPC", "EDQUOT"]}[k]
        return "%s:%d:%s:%d" % (k, r.choice([1, 1, 2, 3, 5, r.randint(1, 20)]), r.choice(e), 1 if r.random() < 0.2 else 0)
    for step in range(r.choice([1, 2, 3, 5] + ([8] if thorough else []))):
        if step and r.random() < 0.2:
            content(r.choice([1, 5]))
            L.append("build")
        fs = " ! " + " ".join(fault() for _ in range(r.choice([1, 1, 2]))) if r.random() < 0.35 else ""
        fam = r.choice(["", "", " family=ipv4", " family=ipv6"])
        if prop == "C23":
            if r.random() < 0.3: L.append("set now=%d tz=%s" % (r.choice([0, 1, 2**31 - 1, 2**31, 2**32, r.randint(10**9, 2 * 10**9)]), r.choice(TZS)))
            if fs and r.random() < 0.6:
                z = r.random()
                e = r.choice(["ENOSPC", "EIO", "EDQUOT"])
                fs = " ! " + ("open:1:" + r.choice(["EACCES", "ENOSPC", "EMFILE", "EROFS"]) if z < 0.1 else "close:1:" + e if z < 0.25 else "cap:%d" % r.choice([0, 1, 4096, 4168, 4170, 8192, 12288, 16384, r.randint(0, 60000)]) if z < 0.45 else
                    "write:1:short:1" if z < 0.6 else "write:%d:%s:%d" % (r.choice([1, 1, 2, 2, 3, 4, r.randint(1, 30)]), e, r.random() < 0.5))
            z = r.random()
            a = "src=missing" if z < 0.04 else "dst=missing" if z < 0.08 else "src=bad len=%d" % r.choice([0, 1, 7, 8, 100, 4167]) if z < 0.12 else "src=last" if z < 0.35 else ""
            L.append(" ".join(("copy n=%d %s%s" % (r.randint(0, 1), a, " junk=%d" % r.choice([0, 1, 5000, 500000]) if r.random() < 0.2 else "")).split()) + fs)
            continue
        if prop == "C16":
            objs = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
                objs.append(r.choice([r.choice(ccs), r.choice(ccs), "AS%d" % r.choice(asns), r.choice(list(FLAG)), r.choice(list(FLAG)), "AS%d" % r.randint(1, 99999), r.choice(CCS)]))
            if objs and r.random() < 0.05: objs.append(r.choice(["foo", "A9x", "AS", "d"]))
            d = " dir=" + r.choice(["1", "1", "2", "1", "2", "1", "1", "missing"]) if r.random() < 0.7 else ""
            L.append("export format=%s%s%s%s%s" % (r.choice(fmts), d, fam, " objs=" + ",".join(objs) if objs else "", fs))
        else:
            x = r.choice(["lookup", "lookup", "lookup", "getas", "searchas", "countries", "byas", "bycc", "byflags", "bogons", "dump", "dump", "version", "verify"])
            if x == "lookup": a = "a=" + ",".join([r.choice(addrs) if r.random() < 0.9 else r.choice(["8.8.8.8", "::1", "2001::1", "255.255.255.255"]) for _ in range(r.randint(1, 12))])
            elif x == "getas": a = "n=" + ",".join([str(r.choice(asns + [r.randint(1, 2**32 - 1)])) if r.random() < 0.93 else "foo" for _ in range(r.randint(1, 4))])
            elif x == "searchas": a = "q=" + (r.choice(WORDS) if r.random() < 0.8 else r.choice(["xyz", "E", "Deutsche Telekom"])).encode().hex()
            elif x == "countries": a = r.choice(["", "name=1", "cont=1", "name=1 cont=1"])
            elif x == "byas": a = "n=%d%s format=%s" % (r.choice(asns), fam, r.choice(fmts[:3]))
            elif x == "bycc": a = "c=%s%s format=%s" % (r.choice(ccs), fam, r.choice(fmts[:3]))
            elif x == "byflags": a = "f=%d%s format=%s" % (r.randint(1, 15), fam, r.choice(fmts[:3]))
            elif x == "bogons": a = "%s format=%s" % (fam.strip() or "x=1", r.choice(fmts[:3]))
            elif x == "dump": a = r.choice(["", "file=1"])
            elif x == "version": a = ""
            else: a = "key=" + r.choice(["0", "0", "1"])
            L.append(("%s %s" % (x, a)).rstrip() + fs)
    return "\n".join(L) + "\n"

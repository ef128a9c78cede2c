# C12..C15: updating the database
import ctypes, hashlib, os, random, shutil
import fsmodel as F
import world as W
from world import TIMES, Violation

DAY = 86400
INTERVAL = {"daily": DAY, "weekly": 7 * DAY, "monthly": 30 * DAY}

def describe(db):
    """What a process sees in a database it has opened"""
    out = [db.created_at, db.description[:40]]
    for a in ("10.1.2.3", "10.4.2.3", "2001:db8:3::1", "20.0.4.1"):
        n = db.lookup(a)
        out.append((str(n), n.country_code, n.asn) if n else None)
    return out

class Update:
    def __init__(self, w):
        self.w = w
    # -- the path holds a complete database at every instant
    def atomic(self, before, recs, offered, after_kill=False):
        w = self.w
        db = w.db
        fs = F.FS(before)
        old = before[db][0] if db in before else None
        allowed = {hashlib.sha256(d).digest() for d in offered}
        if old is not None: allowed.add(hashlib.sha256(old).digest())
        first = fs.names.get(db)
        n = 0
        for i, r in enumerate(recs):
            if r.op == F.WRITE and (r.who, r.fd) not in fs.fds: continue
            if not fs.apply(r): continue
            ino = fs.names.get(db)
            if first is not None and first.touched:
                w.fail("C12", "modified: the previous database is modified in place after %d operations while others are reading it" % (i + 1))
            if ino is first: continue
            n += 1
            if ino is None:
                w.fail("C12", "missing: there is no database after %d operations" % (i + 1))
            if hashlib.sha256(ino.data).digest() not in allowed:
                w.fail("C12", "partial: the database is neither the old nor a new one after %d operations (%s)" % (i + 1, W.token_of(bytes(ino.data))))
            if ino.pending or hashlib.sha256(ino.synced).digest() not in allowed:
                w.fail("C12", "not durable: the database has been replaced by a file that has not been written to disk; after a power loss it could be incomplete")
            if ino.mode & 0o444 != 0o444:
                w.fail("C12", "unreadable: the new database cannot be read by everyone (mode %o) after %d operations" % (ino.mode, i + 1))
        w.checks += n + 1
    def read_all(self):
        w = self.w
        for fd, db, seen in w.readers:
            now = describe(db)
            w.checks += 1
            if now != seen:
                w.fail("C12", "reader: a process that opened the database before sees something else now")
    def offered(self):
        return [W.body(o)[0] for o in self.w.mirrors.values() if o.get("kind") in ("ok", None)]
    def newest(self, data):
        """Creation time of what is installed"""
        return int.from_bytes(data[8:16], "big") if data is not None and data[:7] == b"LOCDBXX" else None
    def argv(self, opts):
        w = self.w
        a = ["--database", os.path.basename(w.db) if w.rel else w.db, "--public-key", os.path.join(W.HERE, "keys", "k0.pub"), "update"]
        if opts.get("debug"): a.insert(0, "--debug")
        if opts.get("cron"): a += ["--cron", opts["cron"]]
        return a
    def announced(self):
        d = self.w.dns
        return int(d["t"]) if "t" in d else None
    def patience(self):
        """An upper bound for the time an update may take (in seconds): all that the mirrors make us wait for, and generous timeouts on top"""
        t = 600 + 4 * float(self.w.dns.get("delay", "0"))
        for o in self.w.mirrors.values():
            n = 0
            if o.get("kind") == "ok": n = len(W.body(o)[1]) * (2 + 10 / max(1, int(o.get("chunk", "4000")))) / max(1, int(o.get("step", "100000")))
            t += 4 * (float(o.get("gap", "0")) * n + float(o.get("wait", "0")) + float(o.get("rtt", "0")) + 1000)
        return t
    def litter(self, before):
        """Files that have appeared and that are neither the database nor were there before"""
        w = self.w
        out = [n for n in w.listing("db") if os.path.join(w.root, "db", n) not in before and n != os.path.basename(w.db)]
        return out + ["TMPDIR/" + n for n in w.listing("tmp")]
    # -- one update
    def update(self, opts, faults):
        w = self.w
        S = w.S
        before = w.snapshot()
        st0 = os.stat(w.db) if os.path.exists(w.db) else None
        old = before[w.db][0] if w.db in before else None
        intact = old is None or W.token_of(old)[0] in "vbeu" and len(W.token_of(old)) == 2
        told = self.newest(old)
        dns = self.announced()
        dns_certain = dns is not None or "fail" in w.dns or "init" in w.dns or not w.dns
        start = S.now
        power = [f for f in faults if f.startswith("power:")]
        local = [f for f in faults if not f.startswith("power:")]
        w.ops += 1
        st, recs = w.run(self.argv(opts), local, int(opts.get("seed", "1")))
        killed = st == 99
        offered = self.offered()
        for r in recs:
            if r.op == F.NET and r.a == 9: w.fail("C14", "hang: the update %s" % r.p1)
        if st == -14: w.fail("C14", "hang: the update did not end")
        if st < 0: w.fail("C14", "crash: the update died from signal %d" % -st)
        self.atomic(before, recs, offered)
        new = w.content()
        changed = new != old
        w.log("installed", W.token_of(old), "->", W.token_of(new), "exit", st)
        w.checks += 1
        if changed:
            t = W.trusted(new) if new is not None else None
            if new is None: w.fail("C12", "missing: there is no database any more")
            if t is None: w.fail("C13", "unauthentic: a database has been installed that was never signed by the trusted key (%s)" % W.token_of(new))
            if dns is not None and t < dns: w.fail("C13", "outdated: a database from %d has been installed although %d has been announced" % (t, dns))
            if told is not None and intact and t < told: w.fail("C13", "older: a database from %d has been replaced by an older one from %d" % (told, t))
            db = W.location.Database(w.db)
            if db.created_at != t: w.fail("C12", "stale: a process that opens the database now does not get the new one")
            del db
            w.shape("installed")
        if not killed:
            if st and changed: w.fail("C12", "failed: the update failed with status %d but has replaced the database" % st)
            if not changed and st0 is not None and st:
                s = os.stat(w.db)
                if (s.st_ino, s.st_mode, s.st_size) != (st0.st_ino, st0.st_mode, st0.st_size): w.fail("C12", "touched: the update failed but the previous file has been changed")
        self.read_all()
        fired = [r for r in recs if r.op == F.FAULT]
        interrupted = any(r.op == F.NET and r.a == 8 for r in recs)
        unlink_failed = any(r.a == W.KINDS["unlink"] for r in fired)
        if fired or killed: w.errors += 1
        if interrupted:
            w.faults["interrupt"] = w.faults.get("interrupt", 0) + 1
            w.shape("interrupted")
        # -- liveness
        if not killed and not unlink_failed:
            l = self.litter(before)
            w.checks += 1
            if l: w.fail("C14", "litter: %s left behind" % ", ".join(("a temporary file" if not x.startswith("TMPDIR") else "a file in TMPDIR") for x in l))
        if w.took > self.patience() * 10**9: w.fail("C14", "time: the update took %d seconds" % (w.took // 10**9))
        current = intact and told is not None and dns is not None and told >= dns
        age = (start // 10**9 - told) if told is not None else None
        iv = INTERVAL.get(opts.get("cron"))
        young = iv is not None and intact and age is not None and age <= iv - 2
        unsure = iv is not None and age is not None and not young and age < iv + 2
        if not killed and st == 0 and not changed and not current and not young and not unsure:
            # the very same version might have been downloaded again
            same = old is not None and any(r.op == F.RENAME and r.p2 == w.db for r in recs)
            if not same or not (W.trusted(new) is not None): w.fail("C14", "status: the update reports success but has not installed anything")
        if not killed and not fired and not interrupted and not young and not unsure and not current and intact and dns_certain and st != 98:
            g = [i for i, o in w.mirrors.items() if W.good(o) and (told is None or TIMES[int(o["v"][1:])] > told) and (dns is None or TIMES[int(o["v"][1:])] >= dns)]
            if w.proxy:
                def through(i):
                    o = w.mirrors[i]
                    if "m%d.example" % i in w.proxy.get("not", "").split(","): return True
                    return w.proxy.get("kind") == "ok" and w.proxy.get("env", "both") in ("both", o.get("scheme", "https"))
                g = [i for i in g if through(i)]
                if g: w.shape("has to succeed through a proxy")
            if not W.MIRROR_VARS: g = [i for i in g if i == 0]
            w.checks += 1
            if g:
                w.shape("has to succeed")
                if st: w.fail("C14", "unsuccessful: mirror %d has a good database but the update failed with status %d" % (g[0], st))
                # (another mirror might have offered the version that was installed already)
                if not changed and not (old is not None and any(r.op == F.RENAME and r.p2 == w.db for r in recs)): w.fail("C14", "unsuccessful: mirror %d has a good database but it has not been installed" % g[0])
            elif not st: w.shape("success")
            else: w.shape("failure")
        # -- interval
        if not unsure and intact and dns_certain and not fired and not killed:
            w.checks += 1
            if young:
                w.shape("young")
                if S.dns or S.contacts: w.fail("C15", "contacted: somebody has been contacted although the database is only %d seconds old (%s)" % (age, opts["cron"]))
                if changed: w.fail("C15", "changed: the database has been replaced although it is young")
                if st not in (0, 3): w.fail("C15", "status: reported %d although the database is young" % st)
            else:
                if not S.dns and not S.contacts and "init" not in w.dns:
                    w.fail("C15", "silent: nobody has been contacted although the database is %s (%s)" % ("missing" if age is None else "%d seconds old" % age, opts.get("cron", "no interval")))
                if current:
                    w.shape("already the newest")
                    if S.contacts: w.fail("C15", "contacted: a mirror has been contacted although the database is the newest one")
                    if changed: w.fail("C15", "changed: the database has been replaced although it is the newest one")
                    if st not in (0, 3): w.fail("C15", "status: reported %d although the database is the newest one" % st)
                elif not S.contacts:
                    w.fail("C15", "silent: no mirror has been contacted although a new database is due")
        # -- power loss
        if power and not killed:
            rng = random.Random(int(power[0].split(":")[1]))
            files, upto = F.after_power_loss(before, [r for r in recs if r.op != F.WRITE or True], rng)
            w.faults["power loss"] = w.faults.get("power loss", 0) + 1
            self.readers_gone()
            dbdir = os.path.join(w.root, "db")
            for n in os.listdir(dbdir): os.unlink(os.path.join(dbdir, n))
            for p, (d, m) in sorted(files.items()):
                if os.path.dirname(p) != dbdir: continue
                with open(p, "wb") as f: f.write(d)
                os.chmod(p, m)
            c = w.content()
            w.log("power loss after", upto, W.token_of(c))
            w.checks += 1
            if c != old and (c is None or c not in offered):
                w.fail("C12", "power loss: the database is %s after a power loss" % ("missing" if c is None else "incomplete"))
            if c is not None and c == old: w.shape("old after power loss")
            elif c is not None: w.shape("new after power loss")
        if killed:
            w.faults["kill"] = w.faults.get("kill", 0) + 1
            w.shape("killed")
    def readers_gone(self):
        for fd, db, seen in self.w.readers: os.close(fd)
        self.w.readers = []
    # -- two at the same time
    def update2(self, opts, faults):
        w = self.w
        S = w.S
        before = w.snapshot()
        old = before[w.db][0] if w.db in before else None
        told = self.newest(old)
        dns = self.announced()
        rng = random.Random(int(opts["seed"]))
        S.clear()
        S.capacity = -1
        n = int(opts.get("n", "2"))
        kids = {}
        pipes = []
        for i in range(n):
            r1, w1 = os.pipe(); r2, w2 = os.pipe()
            mine = [f.split("/", 1)[1] for f in faults if f.startswith("%d/" % i)]
            pid = w.spawn(self.argv(opts), mine, i, (r1, w2), None, int(opts["seed"]) + i)
            os.close(r1); os.close(w2)
            kids[i] = [pid, r2, w1, None]
        def until_gate(i):
            if os.read(kids[i][1], 1): return True
            kids[i][3] = w.wait(kids[i][0])
            os.close(kids[i][1]); os.close(kids[i][2])
            return False
        alive = [i for i in kids if until_gate(i)]
        turns = 0
        stick = None
        while alive:
            i = stick if stick in alive and rng.random() < 0.7 else rng.choice(alive)
            stick = i
            try: os.write(kids[i][2], b"g")
            except BrokenPipeError: pass
            turns += 1
            if not until_gate(i): alive.remove(i)
        recs = S.records()
        w.note_records(recs)
        sts = [kids[i][3] for i in kids]
        w.log("exits", *sts, "turns", turns)
        if w.verbose:
            for i in kids:
                for l in w.stderr(i).splitlines(): print("    %d| %s" % (i, l))
        if 125 in sts: raise RuntimeError("the simulator failed in a child")
        w.ops += n
        for r in recs:
            if r.op == F.NET and r.a == 9: w.fail("C14", "hang: the update %s" % r.p1)
        if any(s < 0 for s in sts): w.fail("C14", "crash: an update died: %r" % sts)
        self.atomic(before, recs, self.offered())
        new = w.content()
        if new != old:
            t = W.trusted(new) if new is not None else None
            if new is None: w.fail("C12", "missing: there is no database any more")
            if t is None: w.fail("C13", "unauthentic: a database has been installed that was never signed by the trusted key (%s)" % W.token_of(new))
            if dns is not None and t < dns: w.fail("C13", "outdated: a database from %d has been installed although %d has been announced" % (t, dns))
            if told is not None and W.trusted(old) and t < told: w.fail("C13", "older: a database from %d has been replaced by an older one from %d" % (told, t))
        self.read_all()
        fired = any(r.op == F.FAULT for r in recs)
        if 99 not in sts and not any(r.op == F.FAULT and r.a == W.KINDS["unlink"] for r in recs):
            l = self.litter(before)
            if l: w.fail("C14", "litter: %d file(s) left behind by two updates" % len(l))
        if fired or 99 in sts: w.errors += 1
        w.shape("two updates at once")
        if 99 in sts: w.faults["kill"] = w.faults.get("kill", 0) + 1
    # -- plan lines
    def line(self, words, faults):
        w = self.w
        k = words[0]
        o = W.parse_opts(words[1:])
        if k == "run":
            w.tz = o.get("tz", "UTC")
            w.rel = o.get("db") == "rel"
            w.S.reset(int(o.get("now", "1610000000")) * 10**9, int(o.get("rnd", "1")))
        elif k == "set":
            if "now" in o: w.S.now = int(o["now"]) * 10**9
            if "tz" in o: w.tz = o["tz"]
            w.log(*words)
        elif k == "install":
            if os.path.exists(w.db): os.unlink(w.db)
            t = words[1]
            if t != "none":
                d = W.raw(t) if t != "junk" else b"This is not a database"
                tmp = os.path.join(w.root, "db", "new")
                with open(tmp, "wb") as f: f.write(d)
                os.chmod(tmp, 0o444 if not o.get("mode") else int(o["mode"], 8))
                os.rename(tmp, w.db)
            w.log(*words)
        elif k == "mirror":
            w.mirrors[int(words[1])] = W.parse_opts(words[2:])
            w.log(*words)
        elif k == "nomirrors": w.mirrors = {}
        elif k == "proxy":
            w.proxy = o if "kind" in o else {}
            w.log(*words)
        elif k == "dns":
            w.dns = o
            w.log(*words)
        elif k == "reader":
            d = w.content()
            if d is not None and W.token_of(d)[0] in "vbeu":
                fd = os.open(w.db, os.O_RDONLY)
                db = W.location.Database(w.db)
                w.readers.append((fd, db, describe(db)))
        elif k == "update": self.update(o, faults)
        elif k == "update2": self.update2(o, faults)

# --- plans
TZS = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+1345>-13:45", "<-1130>11:30", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "<+14>-14", "<-12>12"]

def bad_mirror(r, prop):
    k = r.random()
    if prop in ("C12", "C14") and k < 0.02: return "kind=intr"
    if k < 0.10: return "kind=" + r.choice(["refuse", "gaierror", "noname", "unreach", "ctimeout"])
    if k < 0.15: return "kind=tls e=" + r.choice(["cert", "eof", "reset", "stall"])
    if k < 0.25: return "kind=status s=" + r.choice(["404", "403", "500", "502", "503", "304", "204", "400", "410", "429", "401", "407", "451"])
    if k < 0.33: return "kind=garbage g=%d end=%s" % (r.randint(0, 9), r.choice(["eof", "reset"]))
    if k < 0.37: return "kind=hang"
    if k < 0.41: return "kind=drop e=" + r.choice(["eof", "reset", "tls"])
    if k < 0.46: return "kind=redirect to=%s s=%s" % (r.choice(["loop", "self", "file", "bad", "none", "m%d.example" % r.randint(0, 4), "other.example"]), r.choice(["301", "302", "303", "307", "308"]))
    t = r.choice("vvvbeu") + str(r.randint(0, 9))
    o = ["kind=ok", "v=" + t]
    how = r.random()
    if how < 0.25: o += ["cut=%d" % r.randint(0, 400000), "end=" + r.choice(["eof", "reset", "stall", "tls"] + ["intr"] * (prop in ("C12", "C14")))]
    elif how < 0.70:
        c = []
        for _ in range(r.choice([1, 1, 1, 2])):
            x = r.random()
            if x < 0.3: c.append("flip:%d:%d" % (r.choice([r.randint(0, 400000), r.randint(4168, 13000), r.randint(0, 67)]), r.randint(0, 7)))
            elif x < 0.45: c.append("trunc:%d" % r.choice([r.randint(0, 400000), r.randint(4000, 13000)]))
            elif x < 0.6: c.append("append:%d" % r.randint(1, 100000))
            elif x < 0.7: c.append("sigzero")
            elif x < 0.8: c.append("sigswap:%s%d" % (r.choice("eu"), r.randint(0, 9)))
            elif x < 0.9: c.append("time:%d" % r.choice([TIMES[9], TIMES[r.randint(0, 9)] + r.randint(-5, 100000), 2000000000, 0]))
            else: c.append("zero:%d:%d" % (r.randint(0, 400000), r.randint(1, 5000)))
        o.append("cor=" + "+".join(c))
    elif how < 0.9: o.append("xz=" + r.choice(["none", "flip:%d:%d" % (r.randint(0, 400000), r.randint(0, 7)), "flip:%d:%d" % (r.randint(0, 40), r.randint(0, 7)), "trail:%d" % r.randint(0, 1000), "multi:%s%d" % (r.choice("ve"), r.randint(0, 9)), "alone", "gz", "empty", "html"]))
    else: o.append("fr=" + r.choice(["clless", "clmore"]))
    return " ".join(o + delivery(r))

def delivery(r):
    o = []
    x = r.random()
    if x < 0.3: o.append("fr=chunked chunk=%d" % r.choice([1, 7, 1000, 1024, 1025, 5000, 100000]) if r.random() < 0.9 else "fr=chunked")
    elif x < 0.5: o.append("fr=close")
    if not any("fr=close" in y for y in o) and r.random() < 0.1: o.append("end=" + r.choice(["reset", "stall", "eof"]))
    if r.random() < 0.4: o.append("step=%d" % r.choice([1, 13, 500, 1024, 1460, 8192, 20000]) if r.random() < 0.7 else "step=1000")
    if r.random() < 0.3: o.append("gap=%s" % r.choice(["0.001", "0.1", "1", "15", "50", "70"]) if "step=1" not in o else "gap=0.01")
    if r.random() < 0.5: o.append("ims=1 lm=%d" % r.choice([1, 30, 3600, 90000]))
    if r.random() < 0.2: o.append("wait=%s" % r.choice(["0", "5", "19", "55", "65"]))
    if r.random() < 0.1: o.append("scheme=http")
    return o

def good_mirror(r, v): return " ".join(["kind=ok", "v=%s%d" % (r.choice("vvb"), v)] + delivery(r))

def fault(r, big):
    k = r.choice(["open", "write", "write", "write", "fsync", "rename", "unlink", "trunc", "chmod", "close", "cap"])
    if k == "cap": return "cap:%d" % r.choice([0, 1, 5000, 8192, 12000, r.randint(0, 400000)])
    n = r.choice([1, 1, 2, 3]) if k != "write" else r.randint(1, 45 if big else 5)
    e = {"open": ["ENOSPC", "EACCES", "EMFILE", "EROFS", "EIO"], "write": ["ENOSPC", "EIO", "EDQUOT", "short", "short"], "fsync": ["EIO", "ENOSPC"], "rename": ["EACCES", "EIO", "EROFS", "ENOSPC"],
        "unlink": ["EACCES", "EIO"], "trunc": ["EIO"], "chmod": ["EPERM", "EIO"], "close": ["EIO", "ENOSPC"]}[k]
    return "%s:%d:%s:%d" % (k, n, r.choice(e), 1 if r.random() < 0.15 else 0)

def generate(prop, seed, thorough):
    r = random.Random(seed)
    L = []
    i = r.choice([None, None] + list(range(9))) if prop != "C15" else r.choice([None] + list(range(10)) * 2)
    now = TIMES[i] + r.choice([0, 100, 5000, DAY * 3, DAY * 40]) if i is not None else r.choice(TIMES) + 1000
    L.append("run prop=%s seed=%d tz=%s now=%d rnd=%d db=%s" % (prop, seed, r.choice(TZS), now, r.randint(1, 2**40), r.choice(["abs", "abs", "rel"])))
    if i is not None: L.append("install %s%d" % (r.choice("vvvb") if r.random() < 0.93 else r.choice("eu"), i))
    elif r.random() < 0.1: L.append("install junk")
    cur = i if i is not None else -1
    dns_off = 0
    for step in range(r.choice([1, 1, 2, 2, 3, 4] + ([6, 9] if thorough else []))):
        if step and r.random() < 0.3: L.append("set now=%d" % (now + r.choice([-DAY * 365, -100, 3600, DAY, DAY * 30, DAY * 400])))
        if step and r.random() < 0.15: L.append("set tz=" + r.choice(TZS))
        # DNS
        x = r.random()
        latest = r.randint(max(cur, 0), 9) if r.random() < 0.85 else r.randint(0, 9)
        if x < 0.62: t = TIMES[latest]
        elif x < 0.75: t = TIMES[latest] + r.choice([-1, 1, 100, -3600, DAY])
        else: t = None
        if t is not None: L.append("dns t=%d" % t + (" delay=%s" % r.choice(["0", "5", "30"]) if r.random() < 0.2 else ""))
        elif x < 0.87: L.append("dns fail=%d" % r.choice([1, 2, 3, 4]))
        elif x < 0.91: L.append("dns init=1")
        else: L.append("dns text=%s" % r.choice([b"", b"x", b"v=spf1 -all", W.stamp(TIMES[latest]) + b" ", b"Mon, 99 Foo 2020"]).hex())
        # mirrors
        if r.random() < {"C14": 0.25, "C15": 0.08}.get(prop, 0.05):
            x = r.random()
            k = "ok" if x < 0.75 else r.choice(["refuse", "unreach", "hang", "drop", "status s=407", "status s=403", "status s=502", "gaierror"])
            L.append("proxy kind=%s env=%s%s%s%s" % (k, r.choice(["both", "both", "both", "https", "https", "http"]), r.choice(["", "", " form=host", " form=slash"]), " auth=1" if r.random() < 0.2 else "",
                " not=" + ",".join("m%d.example" % x for x in sorted(r.sample(range(6), r.randint(1, 3)))) if r.random() < 0.25 else ""))
        elif step: L.append("proxy none=1")
        L.append("nomirrors")
        n = r.choice([1, 2, 2, 3, 3, 4, 6])
        if prop == "C15": n = r.choice([1, 1, 2])
        have_good = r.random() < (0.8 if prop in ("C14", "C12") else 0.4)
        at = r.randrange(n)
        big = False
        for m in range(n):
            if have_good and (m == at or r.random() < 0.15):
                v = latest if r.random() < 0.7 else r.randint(0, 9)
                if prop == "C12" and r.random() < 0.35: v = r.choice([4, 8])
                if v in (4, 8): big = True
                L.append("mirror %d %s" % (m, good_mirror(r, v)))
            elif r.random() < 0.2:
                # honest but old
                L.append("mirror %d %s" % (m, good_mirror(r, r.randint(0, max(latest - 1, 0)))))
            else: L.append("mirror %d %s" % (m, bad_mirror(r, prop)))
        if r.random() < 0.5: L.append("reader")
        fs = []
        pf = {"C12": 0.6, "C13": 0.2, "C14": 0.25, "C15": 0.05}[prop]
        if r.random() < pf:
            x = r.random()
            if prop == "C12" and x < 0.3: fs.append("kill:%d" % r.randint(1, 60 if big else 14))
            elif prop == "C12" and x < 0.6: fs.append("power:%d" % r.randint(1, 2**30))
            else:
                for _ in range(r.choice([1, 1, 2])): fs.append(fault(r, big))
                if prop == "C12" and r.random() < 0.2: fs.append("power:%d" % r.randint(1, 2**30))
        o = "seed=%d" % r.randint(1, 2**30)
        if r.random() < (0.9 if prop == "C15" else 0.1):
            c = r.choice(["daily", "weekly", "monthly"])
            o += " cron=" + c
            if i is not None and r.random() < 0.85:
                iv = INTERVAL[c]
                base = TIMES[i] if step == 0 or r.random() < 0.5 else r.choice(TIMES)
                d = r.choice([iv + r.choice([-1, 1]) * r.choice([3, 10, 60, 1799, 3600, 3601, 7200, 14 * 3600, DAY // 2, DAY]), -r.randint(0, 10**6), r.randint(0, 3 * iv), r.choice(list(INTERVAL.values())) + r.randint(-5, 5), 0, iv * 50, 10**9])
                now = base + d
                L.append("set now=%d" % now)
        if r.random() < 0.05: o += " debug=1"
        if r.random() < (0.22 if prop == "C12" else 0.04):
            f2 = []
            for f in fs:
                if not f.startswith("power"): f2.append("%d/%s" % (r.randint(0, 1), f))
            L.append("update2 %s%s" % (o, " ! " + " ".join(f2) if f2 else ""))
        else: L.append("update %s%s" % (o, " ! " + " ".join(fs) if fs else ""))
        cur = max(cur, latest)
    return "\n".join(L) + "\n"

# The simulated world of the command line tool: processes, files, clock, resolver and mirrors
import ctypes, errno, gc, hashlib, http.client, io, lzma, mmap, os, random, signal, socket, ssl, struct, sys, tempfile, time, traceback
import logging, logging.handlers
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "site"))
import fsmodel as F

shim = ctypes.CDLL(None)
shim.shim_now.restype = ctypes.c_int64
for n in ("shim_count", "shim_fired", "shim_hits"): getattr(shim, n).restype = ctypes.c_long

TIMES = [1600000000, 1600000001, 1600003600, 1600086400, 1600090000, 1600700000, 1603300000, 1603300010, 1610000000, 1610086401]
KINDS = {"open": 0, "write": 1, "fsync": 2, "rename": 3, "unlink": 4, "trunc": 5, "chmod": 6, "close": 7}
KNAME = {v: k for k, v in KINDS.items()}
CAP = 48 << 20

class Violation(Exception):
    def __init__(self, prop, msg):
        Exception.__init__(self, msg)
        self.prop = prop

class Rec:
    __slots__ = ("op", "fd", "a", "b", "err", "who", "p1", "p2")

class Shared:
    """The memory that all processes of a run have in common"""
    def __init__(self):
        self.m = mmap.mmap(-1, CAP)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        self.reset(0, 1)
    def _f(off):
        def get(self): return ctypes.c_int64.from_address(self.addr + off).value
        def put(self, v): ctypes.c_int64.from_address(self.addr + off).value = v
        return property(get, put)
    used, cap, now, rnd, dns, contacts, sleeps, steps, written, capacity = map(_f, range(0, 80, 8))
    def reset(self, now, rnd):
        self.used = 0; self.cap = CAP - 80; self.now = now; self.rnd = rnd
        self.dns = self.contacts = self.sleeps = self.steps = self.written = 0
        self.capacity = -1
    def clear(self):
        self.used = 0; self.dns = self.contacts = self.written = 0
    def records(self):
        out = []
        o, end = 80, 80 + self.used
        m = self.m
        while o < end:
            op, fd, a, b, err, l1, l2, who = struct.unpack_from("=IiqqiIII", m, o)
            r = Rec()
            r.op, r.fd, r.a, r.b, r.err, r.who = op, fd, a, b, err, who
            r.p1 = bytes(m[o + 40:o + 40 + l1]); r.p2 = bytes(m[o + 40 + l1:o + 40 + l1 + l2])
            if op != F.WRITE:
                r.p1 = r.p1.decode(errors="replace"); r.p2 = r.p2.decode(errors="replace")
            out.append(r)
            o += (40 + l1 + l2 + 7) & ~7
        return out

# --- the databases that have been published
_raw = {}
def raw(token):
    if token not in _raw:
        _raw[token] = lzma.decompress(open(os.path.join(HERE, "pool", token + ".xz"), "rb").read())
    return _raw[token]
_trusted = {}
def trusted(data):
    """The time of the trusted database with this very content, or None"""
    if not _trusted:
        for k in range(10):
            for c in "vb": _trusted[hashlib.sha256(raw("%s%d" % (c, k))).digest()] = TIMES[k]
    return _trusted.get(hashlib.sha256(data).digest())
_known = {}
def token_of(data):
    if data is None: return "none"
    if not _known:
        for k in range(10):
            for c in "vbeu": _known[hashlib.sha256(raw("%s%d" % (c, k))).digest()] = "%s%d" % (c, k)
    return _known.get(hashlib.sha256(data).digest()) or "%d bytes %s" % (len(data), hashlib.sha256(data).hexdigest()[:8])

def corrupt(data, how):
    """Tampers with a database: flip:OFF:BIT trunc:N append:N sigzero sigswap:TOKEN time:T splice:TOKEN:OFF"""
    d = bytearray(data)
    for h in how.split("+") if how else ():
        p = h.split(":")
        if p[0] == "flip":
            o = int(p[1]) % len(d)
            if 68 <= o < 4168: o = 8 + o % 60
            d[o] ^= 1 << (int(p[2]) % 8)
        elif p[0] == "trunc": del d[int(p[1]) % len(d):]
        elif p[0] == "append": d += bytes(random.Random(int(p[1])).randrange(256) for _ in range(int(p[1]) % 5000 + 1))
        elif p[0] == "sigzero": d[68:4168] = bytes(4100)
        elif p[0] == "sigswap": d[68:4168] = raw(p[1])[68:4168]
        elif p[0] == "time": d[8:16] = int(p[1]).to_bytes(8, "big")
        elif p[0] == "splice":
            o = int(p[2]) % len(d)
            d = d[:o] + raw(p[1])[o:]
        elif p[0] == "zero":
            o = int(p[1]) % len(d)
            n = int(p[2])
            for i in range(o, min(len(d), o + n)):
                if not 68 <= i < 4168: d[i] = 0
    return bytes(d)

_body = {}
def body(o):
    """(decompressed, body) of what a mirror is going to send"""
    key = (o.get("v"), o.get("cor"), o.get("xz"))
    if key in _body: return _body[key]
    d = corrupt(raw(o.get("v", "v0")), o.get("cor", ""))
    x = o.get("xz", "")
    if not o.get("cor") and not x: b = open(os.path.join(HERE, "pool", o.get("v", "v0") + ".xz"), "rb").read()
    elif x == "none": b = d
    else: b = lzma.compress(d, preset=0)
    p = x.split(":")
    if p[0] == "flip": b = bytearray(b); b[int(p[1]) % len(b)] ^= 1 << int(p[2]); b = bytes(b)
    elif p[0] == "trail": b += b"trailing garbage" * (int(p[1]) % 99 + 1)
    elif p[0] == "multi": b += lzma.compress(raw(p[1]), preset=0)
    elif p[0] == "alone": b = lzma.compress(d, format=lzma.FORMAT_ALONE, preset=0)
    elif p[0] == "gz":
        import gzip
        b = gzip.compress(d, mtime=0)
    elif p[0] == "empty": b = b""
    elif p[0] == "html": b = b"<html><body>Please log in to use this network</body></html>\n"
    if len(_body) > 300: _body.clear()
    _body[key] = (d, b)
    return d, b

# --- mirrors
class Hang(BaseException): pass

class Conn:
    """One connection to a mirror; what it sends and when is decided by the plan"""
    def __init__(self, world, host, timeout, proxy=None):
        self.w, self.host, self.timeout, self.proxy = world, host, timeout, proxy
        self.port = None
        self.tls = False
        self.req = b""
        self.events = []
        self.closed = False
        self.files = 0
    # socket interface
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def settimeout(self, t): self.timeout = t
    def gettimeout(self): return self.timeout
    def setblocking(self, b): self.timeout = None if b else 0
    def fileno(self): return -1
    def shutdown(self, *a): pass
    def getpeername(self): return ("192.0.2.1", 443)
    def detach(self): return -1
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def getpeercert(self, *a): return {}
    def version(self): return "TLSv1.3"
    def send(self, data): self.sendall(data); return len(data)
    def sendall(self, data, *a):
        self.w.gate()
        self.req += bytes(data)
        if b"\r\n\r\n" in self.req and not self.events:
            if self.proxy: self.events = self.w.relay(self, self.req)
            else: self.events = self.w.respond(self.host, self.req)
    def makefile(self, mode="r", buffering=None, **kw):
        raw = Raw(self)
        if buffering == 0: return raw
        return io.BufferedReader(raw, buffering if buffering and buffering > 0 else 8192)
    def wait(self, ns):
        """Time passes; false if our patience runs out before"""
        if self.timeout is not None and ns > self.timeout * 1e9:
            self.w.advance(int(self.timeout * 1e9))
            return False
        self.w.advance(ns)
        return True
    def recv(self, n, *a):
        b = bytearray(n)
        k = self.recv_into(b)
        return bytes(b[:k])
    read = recv
    def recv_into(self, buf, *a):
        self.w.gate()
        while self.events:
            e = self.events[0]
            if e[0] == "delay":
                if not self.wait(e[1]):
                    self.events[0] = ("delay", max(0, e[1] - int(self.timeout * 1e9)))
                    raise TimeoutError("timed out")
                self.events.pop(0)
            elif e[0] == "data":
                d = e[1]
                n = min(len(buf), len(d))
                buf[:n] = d[:n]
                if n < len(d): self.events[0] = ("data", d[n:])
                else: self.events.pop(0)
                if n: return n
            elif e[0] == "eof": return 0
            elif e[0] == "reset": raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            elif e[0] == "tls": raise ssl.SSLError(1, "[SSL] record layer failure")
            elif e[0] == "intr": self.w.interrupt()
            elif e[0] == "stall":
                if self.timeout is None: raise Hang("waits for a stalled mirror forever")
                self.w.advance(int(self.timeout * 1e9))
                raise TimeoutError("timed out")
        raise Hang("waits for a response to a request that was never sent")

class Raw(io.RawIOBase):
    def __init__(self, c): self.c = c
    def readable(self): return True
    def readinto(self, b): return self.c.recv_into(memoryview(b).cast("B"))

def parse_opts(words):
    return dict(w.split("=", 1) if "=" in w else (w, "1") for w in words)

class Net:
    """What the child sees of the Internet"""
    def __init__(self, S, mirrors, hosts, proxy=None):
        self.S, self.mirrors, self.hosts, self.proxy = S, mirrors, hosts, proxy or {}
        self.tls = {}
    def gate(self): shim.shim_gate()
    def advance(self, ns): shim.shim_advance(ctypes.c_int64(ns))
    def note(self, a, t): shim.shim_note(ctypes.c_int64(a), t.encode())
    def interrupt(self):
        """Somebody has pressed Ctrl-C"""
        self.note(8, "interrupted")
        raise KeyboardInterrupt
    def index(self, host): return self.hosts.get(host, 0)
    def opts(self, host): return self.mirrors.get(self.index(host), {"kind": "gaierror"})
    def connect(self, address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, **kw):
        self.gate()
        host, port = address[:2]
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT: timeout = socket.getdefaulttimeout()
        self.S.contacts += 1
        o = self.opts(host)
        k = o.get("kind")
        if host == "proxy.example": o, k = self.proxy, self.proxy.get("kind") if port == 3128 else "refuse"
        elif self.proxy and host not in self.proxy.get("not", "").split(","): k = "unreach"        # there is a firewall
        self.note(2, "connect %s %s %s" % (host, port, k))
        self.advance(int(float(o.get("rtt", "0.01")) * 1e9))
        if k == "intr": self.interrupt()
        if k == "refuse": raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if k == "gaierror": raise socket.gaierror(socket.EAI_AGAIN, "Temporary failure in name resolution")
        if k == "noname": raise socket.gaierror(socket.EAI_NONAME, "Name or service not known")
        if k == "unreach": raise OSError(errno.ENETUNREACH, "Network is unreachable")
        if k == "ctimeout":
            if timeout is None:
                self.advance(130 * 10**9)
                raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
            self.advance(int(min(timeout, 130) * 1e9))
            raise TimeoutError("timed out")
        return Conn(self, host, timeout, self.proxy if host == "proxy.example" else None)
    def relay(self, c, req):
        """A proxy"""
        head = req.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        method, target = (head[0].split(" ") + ["", ""])[:2]
        hdr = {k.strip().lower(): v.strip() for k, _, v in (h.partition(":") for h in head[1:])}
        def plain(status): return [("delay", 10**7), ("data", ("HTTP/1.1 %s\r\nContent-Length: 6\r\n\r\nerror\n" % status).encode()), ("eof",)]
        if c.port is not None:
            # through the tunnel
            if c.port != (80 if self.opts(c.host).get("scheme") == "http" else 443) or (c.port == 443) != c.tls: return plain("400 Bad Request")
            if "://" in target: req = req.replace(target.encode("latin-1"), ("/" + target.split("://", 1)[1].partition("/")[2]).encode("latin-1"), 1)
            return self.respond(c.host, req)
        self.note(3, "proxy: %s %s" % (method, target))
        p = self.proxy
        k = p.get("kind")
        if k == "hang": return [("stall",)]
        if k == "drop": return [(p.get("e", "eof"),)]
        if k == "status": return plain(p.get("s", "403") + " No")
        if p.get("auth"):
            import base64
            if hdr.get("proxy-authorization") != "Basic " + base64.b64encode(b"me:se cret").decode(): return plain("407 Proxy Authentication Required")
        if method == "CONNECT": host, _, port = target.rpartition(":")
        else:
            if not target.startswith("http://"): return plain("501 Not Implemented")
            host, _, path = target[7:].partition("/")
            port = "80"
        k = self.opts(host).get("kind")
        if k == "ctimeout": return [("delay", 30 * 10**9)] + plain("504 Gateway Timeout")
        if k in ("refuse", "gaierror", "noname", "unreach"): return plain("502 Bad Gateway")
        c.host = host
        if method == "CONNECT":
            c.port = int(port) if port.isdigit() else 0
            c.req = b""
            return [("delay", 10**7), ("data", b"HTTP/1.1 200 Connection established\r\n\r\n")]
        if self.opts(host).get("scheme") != "http": return plain("502 Bad Gateway")
        return self.respond(host, req.replace(target.encode("latin-1"), b"/" + path.encode("latin-1"), 1))
    def wrap(self, sock, host):
        self.gate()
        o = self.opts(sock.host)
        sock.tls = True
        if sock.port not in (None, 443): raise ssl.SSLError(1, "[SSL: WRONG_VERSION_NUMBER] wrong version number")
        if o.get("kind") == "tls":
            e = o.get("e", "cert")
            if e == "cert": raise ssl.SSLCertVerificationError(1, "[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed")
            if e == "eof": raise ssl.SSLEOFError(8, "[SSL: UNEXPECTED_EOF_WHILE_READING] EOF occurred in violation of protocol")
            if e == "reset": raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if sock.timeout is None: raise Hang("waits for a stalled TLS handshake forever")
            self.advance(int(sock.timeout * 1e9))
            raise TimeoutError("_ssl.c:983: The handshake operation timed out")
        return sock
    def respond(self, host, req):
        """Turns a request into what happens next on this connection"""
        o = self.opts(host)
        head = req.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        method, path = (head[0].split(" ") + ["", ""])[:2]
        hdr = {k.strip().lower(): v.strip() for k, _, v in (h.partition(":") for h in head[1:])}
        self.note(3, "%s %s %s ims=%s" % (method, host, path, hdr.get("if-modified-since", "")))
        k = o.get("kind")
        ev = [("delay", int(float(o.get("wait", "0.05")) * 1e9))]
        end = o.get("end", "eof")
        def plain(status, extra="", text=b"error\n"):
            return ("HTTP/1.1 %s\r\nServer: sim\r\nContent-Length: %d\r\n%s\r\n" % (status, len(text), extra)).encode() + text
        if k == "hang": return ev + [("stall",)]
        if k == "intr": return ev + [("intr",)]
        if k == "drop": return ev + [(o.get("e", "eof"),)]
        if k == "garbage":
            g = o.get("g", "0")
            d = {"0": b"\x16\x03\x01\x02\x00\x01", "1": b"SSH-2.0-OpenSSH_9.6\r\n", "2": b"HTTP/1.1 abc\r\n\r\n", "3": b"HTTP/1.1 200 OK\r\n" + b"X: y\r\n" * 300 + b"\r\n",
                "4": b"HTTP/1.1 200 OK\r\nX: " + b"a" * 70000 + b"\r\n\r\n", "5": b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc", "6": b"\r\n\r\n", "7": b"HTTP/1.1 999 What\r\n\r\n",
                "8": b"HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\n", "9": b"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nhello"}[g]
            return ev + [("data", d), (end if end != "stall" else "eof",)]
        if k == "redirect":
            n = int(o.get("n", "0"))
            to = o.get("to", "loop")
            if to == "loop": loc = "https://%s%s?%d" % (host, path.split("?")[0], len(self.tls))
            elif to == "self": loc = "https://%s%s" % (host, path)
            elif to == "file": loc = "file:///etc/hostname"
            elif to == "bad": loc = "https://[::1"
            elif to == "none": return ev + [("data", plain("302 Found")), ("eof",)]
            else: loc = "https://%s/databases/1/location.db.xz" % to
            self.tls[len(self.tls)] = 1
            return ev + [("data", plain(o.get("s", "302") + " Found", "Location: %s\r\n" % loc)), ("eof",)]
        if k == "status":
            s = o.get("s", "404")
            if s == "304": return ev + [("data", b"HTTP/1.1 304 Not Modified\r\nServer: sim\r\n\r\n"), ("eof",)]
            if s == "204": return ev + [("data", b"HTTP/1.1 204 No Content\r\nServer: sim\r\n\r\n"), ("eof",)]
            return ev + [("data", plain(s + " Status", "Retry-After: 5\r\n" if s == "503" else "")), ("eof",)]
        if path.split("?")[0] != "/databases/1/location.db.xz" or method not in ("GET", "HEAD"):
            return ev + [("data", plain("404 Not Found")), ("eof",)]
        d, b = body(o)
        t = TIMES[int(o.get("v", "v0")[1:])]
        lm = t + int(o.get("lm", "30"))
        if o.get("ims") and hdr.get("if-modified-since"):
            import email.utils
            try: since = email.utils.parsedate_to_datetime(hdr["if-modified-since"]).timestamp()
            except Exception: since = -1
            if lm <= since: return ev + [("data", b"HTTP/1.1 304 Not Modified\r\nServer: sim\r\n\r\n"), ("eof",)]
        h = "HTTP/1.1 200 OK\r\nServer: sim\r\nLast-Modified: %s\r\nContent-Type: application/x-xz\r\nConnection: close\r\n" % time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(lm))
        fr = o.get("fr", "cl")
        cut = int(o["cut"]) % (len(b) + 1) if "cut" in o else None
        if fr == "cl": h += "Content-Length: %d\r\n" % len(b)
        elif fr == "clless": h += "Content-Length: %d\r\n" % (len(b) // 2)
        elif fr == "clmore": h += "Content-Length: %d\r\n" % (len(b) + 1000)
        elif fr == "chunked":
            h += "Transfer-Encoding: chunked\r\n"
            cs = max(1, int(o.get("chunk", "4000")))
            b = b"".join(b"%x\r\n%s\r\n" % (len(b[i:i + cs]), b[i:i + cs]) for i in range(0, len(b), cs)) + b"0\r\n\r\n"
            if cut is not None: cut = min(cut, len(b) - 5)
        if cut is not None: b = b[:cut]
        if method == "HEAD": b = b""
        if o.get("status"): h = h.replace("200 OK", o["status"] + " Odd", 1)
        ev.append(("data", h.encode() + b"\r\n"))
        step = max(1, int(o.get("step", "100000")))
        gap = int(float(o.get("gap", "0")) * 1e9)
        for i in range(0, len(b), step):
            if gap: ev.append(("delay", gap))
            ev.append(("data", b[i:i + step]))
        ev.append((end,))
        return ev

def good(o):
    """Is this mirror perfectly fine (whatever version it has)?"""
    if o.get("kind") != "ok" or o.get("v", "v0")[0] not in "vb": return False
    if o.get("cor") or o.get("xz") or "cut" in o or o.get("status"): return False
    if o.get("fr", "cl") not in ("cl", "chunked", "close"): return False
    if o.get("fr") == "close" and o.get("end", "eof") != "eof": return False
    if float(o.get("gap", "0")) > 20 or float(o.get("wait", "0")) > 20 or float(o.get("rtt", "0")) > 20: return False
    if int(o.get("lm", "30")) < 1: return False
    return True

# --- resolver
def dns_reply(text):
    q = b"".join(bytes([len(l)]) + l for l in (b"_v1", b"_db", b"location", b"ipfire", b"org")) + b"\0"
    h = struct.pack(">HHHHHH", 4711, 0x8180, 1, 1, 0, 0)
    rd = b"".join(bytes([len(p)]) + p for p in [text[i:i + 255] for i in range(0, len(text), 255)] or [b""])
    return h + q + struct.pack(">HH", 16, 1) + b"\xc0\x0c" + struct.pack(">HHIH", 16, 1, 300, len(rd)) + rd

def stamp(t): return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(t)).encode()

# --- everything that is the same in all children
location = None
SCRIPT = None
CTX = None
MIRROR_VARS = []
def prepare():
    global location, SCRIPT, COPY, CTX
    class Quiet(logging.Handler):
        LOG_DAEMON = 3
        def __init__(self, *a, **k): logging.Handler.__init__(self)
        def emit(self, r): pass
    logging.handlers.SysLogHandler = Quiet           # there is nobody to talk to
    import location as L, location.downloader, location.export
    import argparse, datetime, ipaddress, gzip, email.utils, email.parser, encodings.idna, encodings.latin_1, stringprep, shutil
    location = L
    SCRIPT = compile(open(os.path.join(HERE, "location-script.py")).read(), "location", "exec")
    COPY = compile(open(os.path.join(HERE, "copy-script.py")).read(), "copy.py", "exec")
    for k, v in vars(L.downloader).items():
        if isinstance(v, (tuple, list)) and v and all(isinstance(x, str) and x.startswith("http") for x in v): MIRROR_VARS.append((L.downloader, k))
    for k, v in vars(getattr(L.downloader, "Downloader", object)).items():
        if isinstance(v, (tuple, list)) and v and all(isinstance(x, str) and x.startswith("http") for x in v): MIRROR_VARS.append((L.downloader.Downloader, k))
    CTX = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)

class World:
    def __init__(self, prop, verbose=False):
        self.prop = prop
        self.root = os.path.join(BASE, "w")
        self.S = SHARED
        self.verbose = verbose
        self.h = hashlib.blake2b(digest_size=8)
        self.faults = {}
        self.shapes = {}
        self.checks = self.ops = self.errors = 0
        self.mirrors = {}
        self.dns = {}
        self.proxy = {}
        self.tz = "UTC"
        self.rel = False
        self.readers = []
        self.simtime = 0
        import shutil
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("db", "tmp", "out"): os.makedirs(os.path.join(self.root, d))
        self.db = os.path.join(self.root, "db", "database.db")
    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode() + b"\n")
        if self.verbose: print("  " + s)
    def shape(self, s): self.shapes[s] = self.shapes.get(s, 0) + 1
    def fail(self, prop, msg):
        self.log("violation", prop, msg)
        raise Violation(prop, msg)
    def listing(self, d):
        return sorted(os.listdir(os.path.join(self.root, d)))
    def snapshot(self, d="db"):
        out = {}
        for n in self.listing(d):
            p = os.path.join(self.root, d, n)
            if os.path.isfile(p) and not os.path.islink(p): out[p] = (open(p, "rb").read(), os.stat(p).st_mode & 0o7777)
        return out
    def content(self):
        try: return open(self.db, "rb").read()
        except FileNotFoundError: return None
    # -- processes
    def spawn(self, argv, faults, who=0, gates=None, stdout=None, seed=1, extra=None, pipe=False):
        """Runs the command line tool with these arguments in a child; returns its pid"""
        sys.stdout.flush()
        pid = os.fork()
        if pid: return pid
        status = 125
        try: status = self.child(argv, faults, who, gates, stdout, seed, extra, pipe)
        except BaseException:
            shim.shim_stop()
            traceback.print_exc()
        finally: os._exit(status)
    def child(self, argv, faults, who, gates, stdout, seed, extra, pipe):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        root = self.root
        os.chdir(os.path.join(root, "db"))
        err = os.open(os.path.join(BASE, "stderr%d" % who), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(err, 2)
        if stdout: fd = os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        else: fd = os.open("/dev/null", os.O_WRONLY)
        os.dup2(fd, 1)
        os.close(fd); os.close(err)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8")
        os.environ["TZ"] = self.tz
        os.environ["TMPDIR"] = os.path.join(root, "tmp")
        for k in list(os.environ):
            if k.lower().endswith("_proxy"): del os.environ[k]
        time.tzset()
        tempfile.tempdir = None
        tempfile._name_sequence = None
        random.seed(seed)
        hosts = {}
        urls = []
        for i in sorted(self.mirrors):
            hosts["m%d.example" % i] = i
            urls.append("%s://m%d.example/databases/" % (self.mirrors[i].get("scheme", "https"), i))
        for m, k in MIRROR_VARS: setattr(m, k, tuple(urls))
        net = Net(self.S, self.mirrors, hosts, self.proxy)
        if self.proxy:
            v = ("me:se%20cret@" if self.proxy.get("auth") else "") + "proxy.example:3128"
            if self.proxy.get("form", "url") == "url" or "@" in v: v = "http://" + v + ("/" if self.proxy.get("form") == "slash" else "")
            e = self.proxy.get("env", "both")
            for n in ("http", "https"):
                if e in (n, "both"): os.environ[n + "_proxy"] = v
            if self.proxy.get("not"): os.environ["no_proxy"] = self.proxy["not"]
        import urllib.request
        urllib.request._opener = None
        socket.create_connection = net.connect
        ssl._create_default_https_context = lambda *a, **k: CTX
        ssl.create_default_context = lambda *a, **k: CTX
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, server_hostname=None, **k: net.wrap(sock, server_hostname)
        for h in logging.getLogger("location").handlers:
            if isinstance(h, logging.StreamHandler): h.stream = sys.stderr
        d = self.dns
        reply, result, herr, init = b"", -1, 2, 0
        if "t" in d: reply = dns_reply(stamp(int(d["t"]))); result = len(reply)
        elif "text" in d: reply = dns_reply(bytes.fromhex(d["text"])); result = len(reply)
        elif "raw" in d: reply = bytes.fromhex(d["raw"]); result = int(d.get("len", len(reply)))
        elif "fail" in d: herr = int(d["fail"])
        elif "init" in d: init = -1
        shim.shim_dns(init, result, herr, ctypes.c_int64(int(float(d.get("delay", "0.02")) * 1e9)), reply, len(reply))
        shim.shim_faults_clear()
        for f in faults:
            p = f.split(":")
            if p[0] == "cap": self.S.capacity = int(p[1])
            elif p[0] == "kill": shim.shim_kill_at(ctypes.c_long(int(p[1])))
            elif p[0] in KINDS:
                e = -1 if p[2] == "short" else getattr(errno, p[2])
                shim.shim_fault(KINDS[p[0]], ctypes.c_long(int(p[1])), e, int(p[3]) if len(p) > 3 else 0)
        if stdout: shim.shim_track(1)
        sys.argv = ["location"] + argv
        g = {"__name__": "__main__", "__builtins__": __builtins__}
        gr, gw = gates or (-1, -1)
        gc.collect()
        gc.disable()                # collections happen at points the plan decides, which is at the end
        if gw >= 0:
            os.write(gw, b"g")
            os.read(gr, 1)
        shim.shim_start(ctypes.c_void_p(self.S.addr), root.encode(), who, gr, gw)
        status = 0
        try: (extra or (lambda: exec(SCRIPT, g)))()
        except SystemExit as e:
            c = e.code
            if c is None: status = 0
            elif isinstance(c, int): status = c & 0xff
            else: print(c, file=sys.stderr); status = 1
        except Hang as e:
            net.note(9, str(e))
            status = 98
        except BaseException:
            status = 1
            traceback.print_exc()
        try: sys.stdout.flush()
        except BaseException: status = 120
        try: sys.stderr.flush()
        except BaseException: pass
        g.clear()
        gc.collect()
        shim.shim_stop()
        return status
    def wait(self, pid):
        _, st = os.waitpid(pid, 0)
        return os.waitstatus_to_exitcode(st)
    def note_records(self, recs):
        n = len(self.root)
        for r in recs:
            if r.op == F.FAULT:
                k = "%s %s" % (KNAME.get(r.a, "?"), "short" if r.err == -1 else errno.errorcode.get(r.err, r.err))
                self.faults[k] = self.faults.get(k, 0) + 1
            p1 = hashlib.sha256(r.p1).hexdigest()[:8] if isinstance(r.p1, bytes) else r.p1.replace(self.root, "")
            self.log(r.who, r.op, r.a, r.b, r.err, p1, r.p2.replace(self.root, "") if isinstance(r.p2, str) else "")
    def stderr(self, who=0):
        try: return open(os.path.join(BASE, "stderr%d" % who), errors="replace").read()
        except OSError: return ""
    def run(self, argv, faults=(), seed=1, stdout=None, extra=None):
        self.S.clear()
        self.S.capacity = -1
        t0 = self.S.now
        pid = self.spawn(argv, faults, 0, None, stdout, seed, extra)
        st = self.wait(pid)
        self.S.capacity = -1
        recs = self.S.records()
        self.note_records(recs)
        self.log("exit", st, "dns", self.S.dns, "contacts", self.S.contacts)
        if self.verbose:
            for l in self.stderr().splitlines(): print("    | " + l)
        if st == 125: raise RuntimeError("the simulator failed in a child: " + self.stderr())
        self.took = self.S.now - t0
        self.simtime += self.took
        return st, recs

BASE = None
SHARED = None
def setup(base):
    global BASE, SHARED
    BASE = base
    SHARED = Shared()
    prepare()

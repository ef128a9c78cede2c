# Makes the pool of published databases (run once; the result is committed):
#   LD_PRELOAD=<world>/shim.so PYTHONPATH=<world>/site python3 mkpool.py KEYS OUT
import ctypes, hashlib, lzma, mmap, os, sys, tempfile
keys, out = sys.argv[1:3]
import _location
shim = ctypes.CDLL(None)
buf = mmap.mmap(-1, 1 << 20)
addr = ctypes.addressof(ctypes.c_char.from_buffer(buf))
ctypes.c_int64.from_address(addr + 8).value = 1 << 19
ctypes.c_int64.from_address(addr + 72).value = -1
# created at; irregular gaps so that every interval is crossed
TIMES = [1600000000, 1600000001, 1600003600, 1600086400, 1600090000, 1600700000, 1603300000, 1603300010, 1610000000, 1610086401]
def make(k, t, k1, k2):
    f1 = open("%s/k%d.pem" % (keys, k1)) if k1 is not None else None
    f2 = open("%s/k%d.pem" % (keys, k2)) if k2 is not None else None
    w = _location.Writer(f1, f2)
    w.vendor = "Vendor"; w.description = "Version %d " % k + "".join(hashlib.sha256(b"%d %d" % (k, i)).hexdigest() for i in range(60)); w.license = "CC"
    a = w.add_as(64512 + k); a.name = "AS of version %d" % k
    c = w.add_country("DE"); c.name = "Germany"; c.continent_code = "EU"
    n = w.add_network("10.%d.0.0/16" % k); n.country_code = "DE"; n.asn = 64512 + k
    n = w.add_network("2001:db8:%x::/48" % k); n.country_code = "DE"
    if k in (4, 8):
        for i in range(1500):
            n = w.add_network("%d.%d.%d.0/24" % (20 + i % 97, (i * 37) % 251, (i * 101 + k) % 253)) if i % 5 else w.add_network("2a%02x:%x:%x::/48" % (i % 7, i * 911 % 65521, k))
            n.country_code = "DE" if i % 3 else "FR"; n.asn = i % 11 + 1
    fn = tempfile.mktemp()
    ctypes.c_int64.from_address(addr + 16).value = t * 1000000000
    shim.shim_start(ctypes.c_void_p(addr), b"/nonexistent", 0, -1, -1)
    w.write(fn)
    shim.shim_stop()
    data = open(fn, "rb").read()
    os.unlink(fn)
    assert _location and int.from_bytes(data[8:16], "big") == t, (data[8:16], t)
    return data
for k, t in enumerate(TIMES):
    for name, k1, k2 in (("v", 0, None), ("b", 1, 0), ("e", 1, None), ("u", None, None)):
        d = make(k, t, k1, k2)
        open("%s/%s%d.xz" % (out, name, k), "wb").write(lzma.compress(d, preset=9))

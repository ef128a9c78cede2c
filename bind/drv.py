import gc, sys
import _location as L, simhost as S
O = {}
def unhex(s): return bytes.fromhex(s).decode()
def st(v): return "nil" if v is None else "s:" + v.encode().hex()
def it(v): return "nil" if v is None else "i:%d" % v
def bl(v): return "b:%d" % bool(v)
FLAGS = (L.NETWORK_FLAG_ANONYMOUS_PROXY, L.NETWORK_FLAG_SATELLITE_PROVIDER, L.NETWORK_FLAG_ANYCAST, L.NETWORK_FLAG_DROP)
def show(x):
    if isinstance(x, L.Network):
        return "net %s %s %s %s %s %s %s" % (st(str(x)), st(x.country_code), it(x.asn), it(sum(1 << i for i, f in enumerate(FLAGS) if x.has_flag(f))), it(x.family), st(x.first_address), st(x.last_address))
    if isinstance(x, L.AS): return "as %s %s %s" % (it(x.number), st(x.name), st(str(x)))
    if isinstance(x, L.Country): return "country %s %s %s %s" % (st(x.code), st(x.continent_code), st(x.name), st(str(x)))
    return "unknown %s" % type(x).__name__
def keep(slot, v):
    if v is None: return "nil"
    O[slot] = v
    return show(v)
def opt(a): return dict(x.split("=", 1) for x in a)
def f_open(d, p): O[d] = L.Database(p); return "ok"
def f_meta(d): d = O[d]; return "%s %s %s %s" % (st(d.vendor), st(d.description), st(d.license), it(d.created_at))
def f_verify(d, k):
    with open(k, "rb") as f: return bl(O[d].verify(f))
def f_as(s, d, n): return keep(s, O[d].get_as(int(n)))
def f_country(s, d, c): return keep(s, O[d].get_country(unhex(c)))
def f_lookup(s, d, a): return keep(s, O[d].lookup(unhex(a)))
def f_list(e, d, *a):
    o = opt(a)
    d = O[d]
    k = o.get("kind", "networks")
    if k == "bogons": O[e] = d.list_bogons(**({"family": int(o["family"])} if "family" in o else {}))
    elif k == "search_as": O[e] = d.search_as(unhex(o["q"]))
    elif k == "search":
        w = {}
        if "cc" in o: w["country_codes"] = [unhex(x) for x in o["cc"].split(",") if x]
        if "asns" in o: w["asns"] = [int(x) for x in o["asns"].split(",") if x]
        for x in ("flags", "family", "flatten"):
            if x in o: w[x] = int(o[x])
        O[e] = d.search_networks(**w)
    else: O[e] = getattr(d, sys.intern(k))
    return "ok"
def f_next(e, s):
    try: v = next(O[e])
    except StopIteration: return "nil"
    return keep(s, v)
def f_all(e): return "all " + "|".join([show(x) for x in O[e]])
def f_packed(n): return "%s %s" % (st(O[n]._first_address.hex()), st(O[n]._last_address.hex()))
def f_newnet(s, n): return keep(s, L.Network(unhex(n)))
def f_newas(s, n): return keep(s, L.AS(int(n)))
def f_newcountry(s, c): return keep(s, L.Country(unhex(c)))
def f_rp(n, *s): return st(O[n].reverse_pointer(*[unhex(x) for x in s]))
def f_exclude(a, b):
    r = O[a].exclude(O[b])
    return "list " + " ".join(st(str(x)) for x in r)
def f_issub(a, b): return bl(O[a].is_subnet_of(O[b]))
def f_eq(a, b): return bl(O[a] == O[b])
def f_lt(a, b): return bl(O[a] < O[b])
def f_ne(a, b): return bl(O[a] != O[b])
def f_le(a, b): return bl(O[a] <= O[b])
def f_gt(a, b): return bl(O[a] > O[b])
def f_ge(a, b): return bl(O[a] >= O[b])
def f_eqx(a): return "list " + " ".join(bl(x) for x in (O[a] == 5, O[a] != 5, O[a] == None, "x" == O[a], O[a] != "x"))
def f_hasheq(a, b): return bl(hash(O[a]) == hash(O[b]))
def f_hash(a): return it(hash(O[a]))
def f_repr(a): return "ok" if isinstance(repr(O[a]), str) else "bad"
def f_show(x): return show(O[x])
def f_set(x, k, v):
    x = O[x]
    if k in ("asn",): x.asn = int(v)
    elif k == "flag": x.set_flag(int(v))
    else: setattr(x, sys.intern(k), unhex(v))
    return "ok"
def f_valid(c): return bl(L.country_code_is_valid(unhex(c)))
def f_wnew(w, *k):
    fs = [None if x == "-" else open(x, "rb") for x in k]
    try: O[w] = L.Writer(*fs)
    finally:
        for f in fs:
            if f: f.close()
    return "ok"
def f_wmeta(w): w = O[w]; return "%s %s %s" % (st(w.vendor), st(w.description), st(w.license))
def f_was(s, w, n): return keep(s, O[w].add_as(int(n)))
def f_wcountry(s, w, c): return keep(s, O[w].add_country(unhex(c)))
def f_wnet(s, w, n): return keep(s, O[w].add_network(unhex(n)))
def f_write(w, p, *v): O[w].write(p, *[int(x) for x in v]); return "ok"
def f_wrong(k, *a):
    """Wrong types"""
    w = {"lookup": lambda: O[a[0]].lookup(5), "get_as": lambda: O[a[0]].get_as("x"), "asns": lambda: O[a[0]].search_networks(asns=["x"]), "ccs": lambda: O[a[0]].search_networks(country_codes=[5]),
        "ccs2": lambda: O[a[0]].search_networks(country_codes=["DE", "foo"]), "db": lambda: L.Database(5), "net": lambda: L.Network(5), "verify": lambda: O[a[0]].verify("x"), "asn2": lambda: O[a[0]].get_as(1 << 40),
        "asns2": lambda: O[a[0]].search_networks(asns=[(1 << 32) + 5]), "asns3": lambda: O[a[0]].search_networks(asns=[-1]), "setasn": lambda: setattr(L.Network("10.0.0.0/8"), "asn", (1 << 32) + 5),
        "name": lambda: setattr(L.AS(1), "name", 5), "cname": lambda: setattr(L.Country("DE"), "name", None), "cont": lambda: setattr(L.Country("DE"), "continent_code", 5), "ncc": lambda: setattr(L.Network("::/8"), "country_code", 5),
        "delname": lambda: delattr(L.AS(1), "name"), "delcc": lambda: delattr(L.Network("::/8"), "country_code"), "delasn": lambda: delattr(L.Network("::/8"), "asn"), "strasn": lambda: setattr(L.Network("::/8"), "asn", "5"),
        "wvendor": lambda: setattr(L.Writer(), "vendor", 5), "wlicense": lambda: setattr(L.Writer(), "license", None), "wdesc": lambda: setattr(L.Writer(), "description", b"x"), "wdel": lambda: delattr(L.Writer(), "vendor"), "wkey": lambda: L.Writer("x"), "wargs": lambda: L.Writer(None, None, None), "asargs": lambda: L.AS(1, 2), "ccargs": lambda: L.Country("DE", "DE"), "netargs": lambda: L.Network(),
        "ccs3": lambda: O[a[0]].search_networks(country_codes=["DE", "\udc80"]), "ccs4": lambda: O[a[0]].search_networks(country_codes=["DE\0x"]), "nul": lambda: setattr(L.AS(1), "name", "a\0b"), "nul2": lambda: setattr(L.Network("::/8"), "country_code", "DE\0"),
        "sur": lambda: setattr(L.AS(1), "name", "\udc80"), "exnet": lambda: L.Network("::/8").exclude(5), "subnet": lambda: L.Network("::/8").is_subnet_of("::/0"), "rp": lambda: L.Network("::/8").reverse_pointer(suffix=5), "wnet": lambda: L.Writer().add_network(5),
        "was": lambda: L.Writer().add_as(-1), "was2": lambda: L.Writer().add_as("1"), "wcc": lambda: L.Writer().add_country(5), "wwrite": lambda: L.Writer().write(5), "dup": lambda: [w.add_network("10.0.0.0/8") for w in [L.Writer()] for _ in "ab"],
        "flag": lambda: L.Network("::/8").set_flag("x"), "hasflag": lambda: L.Network("::/8").has_flag(None), "valid": lambda: L.country_code_is_valid(5), "family": lambda: O[a[0]].search_networks(family="x"), "sas": lambda: O[a[0]].search_as(5), "gcc": lambda: O[a[0]].get_country(5),
        "bogons": lambda: O[a[0]].list_bogons(family="x"), "log": lambda: L.set_log_level("x")}
    w[k]()
    return "ok"
def run(op, a, spec):
    f = globals()["f_" + op]
    S.arm(spec)
    try: res = f(*a)
    except SystemError as e: res = "err:" + ("Broken" if " exception set" in str(e) or "without setting an exception" in str(e) else "SystemError")
    except Exception as e: res = "err:" + type(e).__name__
    return S.disarm(), res
before = None
lines = open(sys.argv[1]).read().split("\n")[:-1]
before = S.live()
for l in lines:
    idx, spec, rest = l.split(";", 2)
    op, *a = rest.split()
    if op == "drop":
        O.pop(a[0], None)
        S.put(idx + " - ok")
    elif op == "gc":
        gc.collect()
        S.put(idx + " - ok")
    else:
        n = ""
        if op == "rep":
            op, *a = a
            # The interpreter allocates something itself when it gets to know the code
            n = 99
            for _ in range(3):
                gc.collect()
                b = S.blocks()
                for _ in range(16): run(op, a, spec)
                gc.collect()
                n = min(n, S.blocks() - b)
            n = "%d " % n
        f, res = run(op, a, spec)
        S.put("%s %s %s%s" % (idx, f, n, res))
O.clear()
gc.collect()
S.put("END %s | %s | 0" % (before, S.live()))

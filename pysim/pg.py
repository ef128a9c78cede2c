# A small PostgreSQL: as much of it as a program like location-importer can be expected to use, in memory.
# Connections see committed data and their own changes; statements can be made to fail at any point.
import datetime, functools, ipaddress, re

class Unsupported(BaseException): pass
class Error(Exception): pass
class DataError(Error): pass
class IntegrityError(Error): pass
class OperationalError(Error): pass
class ProgrammingError(Error): pass
class Blocked(BaseException): pass

# --- values
_inets = {}
@functools.total_ordering
class Inet:
    """A network (host bits are not kept: the programs we know have none of them)"""
    __slots__ = ("v", "lo", "hi", "p")
    def __init__(self, s):
        s = str(s).strip()
        k = _inets.get(s)
        if k is None:
            try: n = ipaddress.ip_network(s, strict=False)
            except ValueError: raise DataError("invalid input syntax for type inet: \"%s\"" % s)
            k = _inets[s] = (n.version, int(n.network_address), int(n.broadcast_address), n.prefixlen)
            if len(_inets) > 20000: _inets.clear()
        self.v, self.lo, self.hi, self.p = k
    def key(self): return (self.v, self.lo, self.p)
    def __eq__(self, o): return isinstance(o, Inet) and self.lo == o.lo and self.p == o.p and self.v == o.v
    def __lt__(self, o): return self.key() < o.key()
    def __hash__(self): return hash((self.v, self.lo, self.p))
    def __repr__(self): return "%s/%d" % ((ipaddress.IPv4Address if self.v == 4 else ipaddress.IPv6Address)(self.lo), self.p)
    def __reduce__(self): return (Inet, (repr(self),))
    def contains(self, o): return self.v == o.v and self.lo <= o.lo and o.hi <= self.hi
    def out(self):
        if self.p == (32 if self.v == 4 else 128): return (ipaddress.IPv4Address if self.v == 4 else ipaddress.IPv6Address)(self.lo)
        return ipaddress.ip_interface(repr(self))

def cast(v, t):
    if v is None: return None
    if t in ("integer", "int", "int4", "serial", "bigint", "int8", "smallint"):
        if isinstance(v, bool): raise DataError("cannot cast boolean")
        try: v = int(str(v).strip())
        except ValueError: raise DataError("invalid input syntax for type %s: \"%s\"" % (t, v))
        lim = 63 if t in ("bigint", "int8") else 31
        if not -(1 << lim) <= v < (1 << lim): raise DataError("%s out of range" % t)
        return v
    if t in ("text", "varchar", "character varying"):
        if not isinstance(v, str): v = str(v)
        if "\0" in v: raise DataError("PostgreSQL text fields cannot contain NUL (0x00) bytes")
        return v
    if t in ("boolean", "bool"):
        if isinstance(v, bool): return v
        s = str(v).strip().lower()
        if s in ("t", "true", "yes", "on", "1"): return True
        if s in ("f", "false", "no", "off", "0"): return False
        raise DataError("invalid input syntax for type boolean: \"%s\"" % v)
    if t in ("inet", "cidr"): return v if isinstance(v, Inet) else Inet(v)
    if t == "text[]": return [cast(x, "text") for x in v]
    if t == "timestamp":
        if isinstance(v, (int, float)): return v
        if isinstance(v, datetime.datetime): return (v - datetime.datetime(1970, 1, 1)).total_seconds()
    raise Unsupported("cast %r to %s" % (v, t))

def interval(s):
    t = 0
    for n, u in re.findall(r"(-?\d+)\s*([a-z]+)", s.lower()):
        u = u.rstrip("s")
        t += int(n) * {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800}[u]
    return t

# --- parsing
TOK = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<num>\d+(?:\.\d+)?)|(?P<par>%s|%\(\w+\)s)|(?P<id>[A-Za-z_]\w*|"[^"]*")|(?P<op>>>=|<<=|>>|<<|<>|!=|<=|>=|::|\|\||&&|[-+*/=<>(),.;\[\]])""", re.S)
def tokenize(sql):
    out, i = [], 0
    while i < len(sql):
        m = TOK.match(sql, i)
        if not m: raise Unsupported("token at %r" % sql[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if not k: continue
        t = m.group()
        if k == "str": out.append(("str", t[1:-1].replace("''", "'")))
        elif k == "num": out.append(("num", float(t) if "." in t else int(t)))
        elif k == "par": out.append(("par", None if t == "%s" else t[2:-2]))
        elif k == "id": out.append(("id", t[1:-1] if t[0] == '"' else t.lower()))
        else: out.append(("op", t))
    return out

RESERVED = set("select from where join left right inner outer full cross on union all and or not in is null as order by group having limit offset asc desc nulls first last with insert into values update set delete using returning conflict do nothing distinct case when then else end over partition intersect except".split())

class Parser:
    def __init__(self, sql):
        self.t = tokenize(sql)
        self.i = 0
        self.np = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)
    def kw(self, *words):
        for j, w in enumerate(words):
            if self.peek(j) != ("id", w): return False
        self.i += len(words)
        return True
    def at(self, *words): return all(self.peek(j) == ("id", w) for j, w in enumerate(words))
    def op(self, o):
        if self.peek() == ("op", o): self.i += 1; return True
        return False
    def need(self, *words):
        if not self.kw(*words): raise Unsupported("expected %s at %r" % (" ".join(words), self.t[self.i:self.i + 6]))
    def needop(self, o):
        if not self.op(o): raise Unsupported("expected %s at %r" % (o, self.t[self.i:self.i + 6]))
    def ident(self):
        k, v = self.peek()
        if k != "id": raise Unsupported("expected a name at %r" % (self.t[self.i:self.i + 6],))
        self.i += 1
        return v
    # expressions -> tuples
    def expr(self): return self.p_or()
    def p_or(self):
        a = self.p_and()
        while self.kw("or"): a = ("or", a, self.p_and())
        return a
    def p_and(self):
        a = self.p_not()
        while self.kw("and"): a = ("and", a, self.p_not())
        return a
    def p_not(self):
        if self.at("not") and not self.at("not", "exists"):
            self.i += 1
            return ("not", self.p_not())
        if self.kw("not", "exists"): return ("not", self.p_exists())
        return self.p_cmp()
    def p_exists(self):
        self.needop("(")
        q = self.query()
        self.needop(")")
        return ("exists", q)
    def p_cmp(self):
        a = self.p_add()
        while True:
            k, v = self.peek()
            if k == "op" and v in ("=", "<>", "!=", "<", ">", "<=", ">=", ">>=", "<<=", ">>", "<<", "&&"):
                self.i += 1
                if self.kw("any"):
                    self.needop("(")
                    b = ("sub", self.query()) if self.at("select") else self.expr()
                    self.needop(")")
                    a = ("any", v, a, b)
                elif self.kw("all"):
                    self.needop("(")
                    b = ("sub", self.query()) if self.at("select") else self.expr()
                    self.needop(")")
                    a = ("allop", v, a, b)
                else: a = ("cmp", v, a, self.p_add())
            elif self.kw("is", "not", "null"): a = ("not", ("isnull", a))
            elif self.kw("is", "null"): a = ("isnull", a)
            elif self.kw("is", "not", "distinct", "from"): a = ("not", ("distinct", a, self.p_add()))
            elif self.kw("is", "distinct", "from"): a = ("distinct", a, self.p_add())
            elif self.kw("is", "true"): a = ("istrue", a)
            elif self.kw("is", "not", "true"): a = ("not", ("istrue", a))
            elif self.at("in") or self.at("not", "in"):
                neg = self.kw("not")
                self.need("in")
                self.needop("(")
                if self.at("select") or self.at("with"): b = ("sub", self.query())
                else: b = ("list", self.exprs())
                self.needop(")")
                a = ("any", "=", a, b)
                if neg: a = ("not", a)
            elif self.at("between") or self.at("not", "between"):
                neg = self.kw("not")
                self.need("between")
                lo = self.p_add()
                self.need("and")
                hi = self.p_add()
                a = ("and", ("cmp", ">=", a, lo), ("cmp", "<=", a, hi))
                if neg: a = ("not", a)
            else: return a
    def p_add(self):
        a = self.p_mul()
        while True:
            for o in ("+", "-", "||"):
                if self.op(o):
                    a = ("arith", o, a, self.p_mul())
                    break
            else: return a
    def p_mul(self):
        a = self.p_cast()
        while True:
            for o in ("*", "/"):
                if self.peek() == ("op", o):
                    self.i += 1
                    a = ("arith", o, a, self.p_cast())
                    break
            else: return a
    def p_cast(self):
        a = self.p_prim()
        while self.op("::"): a = ("cast", a, self.type())
        return a
    def type(self):
        t = self.ident()
        if t == "timestamp":
            if self.kw("without", "time", "zone") or self.kw("with", "time", "zone"): pass
        if t == "character": self.need("varying"); t = "text"
        if self.op("("):
            while not self.op(")"): self.i += 1
        if self.op("["):
            self.needop("]")
            t += "[]"
        return t
    def exprs(self):
        out = [self.expr()]
        while self.op(","): out.append(self.expr())
        return out
    def p_prim(self):
        k, v = self.peek()
        if k in ("num", "str"): self.i += 1; return ("const", v)
        if k == "par":
            self.i += 1
            self.np += 1
            return ("param", v if v is not None else self.np - 1)
        if k == "op" and v == "(":
            self.i += 1
            if self.at("select") or self.at("with"):
                q = self.query()
                self.needop(")")
                return ("scalar", q)
            e = self.expr()
            self.needop(")")
            return e
        if k == "op" and v == "-": self.i += 1; return ("arith", "-", ("const", 0), self.p_prim())
        if k != "id": raise Unsupported("expression at %r" % (self.t[self.i:self.i + 6],))
        if self.kw("null"): return ("const", None)
        if self.kw("true"): return ("const", True)
        if self.kw("false"): return ("const", False)
        if self.kw("current_timestamp"): return ("now",)
        if self.kw("exists"): return self.p_exists()
        if self.at("interval") and self.peek(1)[0] == "str":
            self.i += 2
            return ("const", interval(self.t[self.i - 1][1]))
        if self.kw("array"):
            self.needop("[")
            e = [] if self.peek() == ("op", "]") else self.exprs()
            self.needop("]")
            return ("array", e)
        if self.kw("cast"):
            self.needop("(")
            e = self.expr()
            self.need("as")
            t = self.type()
            self.needop(")")
            return ("cast", e, t)
        if self.kw("case"):
            subj = None if self.at("when") else self.expr()
            arms = []
            while self.kw("when"):
                c = self.expr()
                if subj: c = ("cmp", "=", subj, c)
                self.need("then")
                arms.append((c, self.expr()))
            els = self.expr() if self.kw("else") else ("const", None)
            self.need("end")
            return ("case", arms, els)
        name = self.ident()
        if self.op("("):
            star = distinct = False
            args = []
            if self.op("*"): star = True
            elif self.peek() != ("op", ")"):
                distinct = self.kw("distinct")
                args = self.exprs()
            order = self.order() if self.at("order") else []
            self.needop(")")
            if self.kw("over"):
                self.needop("(")
                part = []
                if self.kw("partition", "by"): part = self.exprs()
                wo = self.order()
                self.needop(")")
                return ("window", name, args, part, wo)
            if name in ("min", "max", "count", "sum", "bool_or", "bool_and", "array_agg", "string_agg"):
                return ("agg", name, args, star, distinct)
            if name == "now": return ("now",)
            return ("func", name, args)
        if self.op("."):
            if self.op("*"): return ("star", name)
            return ("col", name, self.ident())
        return ("col", None, name)
    def order(self):
        out = []
        if self.kw("order", "by"):
            while True:
                e = self.expr()
                desc = False
                if self.kw("desc"): desc = True
                else: self.kw("asc")
                nf = desc
                if self.kw("nulls", "first"): nf = True
                elif self.kw("nulls", "last"): nf = False
                out.append((e, desc, nf))
                if not self.op(","): break
        return out
    # queries
    def ctes(self):
        out = []
        if self.kw("with"):
            self.kw("recursive") and self.no("recursive")
            while True:
                n = self.ident()
                cols = None
                if self.op("("):
                    cols = [self.ident()]
                    while self.op(","): cols.append(self.ident())
                    self.needop(")")
                self.need("as")
                self.kw("materialized") or self.kw("not", "materialized")
                self.needop("(")
                out.append((n, cols, self.dml() if not self.at("select") and not self.at("with") else self.query()))
                self.needop(")")
                if not self.op(","): break
        return out
    def no(self, what): raise Unsupported(what)
    def query(self):
        c = self.ctes()
        q = self.setop()
        return {"k": "query", "ctes": c, "q": q, "order": self.order(), **self.limit()}
    def limit(self):
        out = {"limit": None, "offset": None}
        while True:
            if self.kw("limit"): out["limit"] = None if self.kw("all") else self.p_add()
            elif self.kw("offset"): out["offset"] = self.p_add(); self.kw("rows") or self.kw("row")
            elif self.kw("for", "update") or self.kw("for", "share") or self.kw("skip", "locked") or self.kw("nowait"): pass
            else: return out
    def setop(self):
        a = self.select()
        while True:
            if self.kw("union"):
                al = self.kw("all")
                self.kw("distinct")
                a = {"k": "union", "all": al, "a": a, "b": self.select()}
            elif self.at("except") or self.at("intersect"):
                k = self.ident()
                if self.kw("all"): self.no(k)
                a = {"k": k, "a": a, "b": self.select()}
            else: return a
    def select(self):
        if self.op("("):
            q = self.query()
            self.needop(")")
            return q
        if self.kw("values"):
            rows = []
            while True:
                self.needop("(")
                rows.append(self.exprs())
                self.needop(")")
                if not self.op(","): break
            return {"k": "values", "rows": rows}
        self.need("select")
        s = {"k": "select", "distinct": None, "items": [], "from": None, "where": None, "group": None, "having": None}
        if self.kw("distinct"):
            s["distinct"] = True
            if self.kw("on"):
                self.needop("(")
                s["distinct"] = self.exprs()
                self.needop(")")
        else: self.kw("all")
        while True:
            if self.op("*"): s["items"].append((("star", None), None))
            else:
                e = self.expr()
                n = None
                if self.kw("as"): n = self.ident()
                elif self.peek()[0] == "id" and self.peek()[1] not in RESERVED: n = self.ident()
                s["items"].append((e, n))
            if not self.op(","): break
        if self.kw("from"): s["from"] = self.froms()
        if self.kw("where"): s["where"] = self.expr()
        if self.kw("group", "by"): s["group"] = self.exprs()
        if self.kw("having"): s["having"] = self.expr()
        # belongs to this select as long as nothing else follows
        return s
    def froms(self):
        out = [("cross", self.source(), None)]
        while True:
            if self.op(",") or self.kw("cross", "join"): out.append(("cross", self.source(), None)); continue
            kind = None
            if self.kw("left", "outer", "join") or self.kw("left", "join"): kind = "left"
            elif self.kw("inner", "join") or self.kw("join"): kind = "inner"
            else: return out
            src = self.source()
            if self.kw("using"):
                self.needop("(")
                cols = [self.ident()]
                while self.op(","): cols.append(self.ident())
                self.needop(")")
                out.append((kind, src, ("using", cols)))
            else:
                self.need("on")
                out.append((kind, src, self.expr()))
    def source(self):
        self.kw("lateral") and self.no("lateral")
        if self.op("("):
            q = self.query()
            self.needop(")")
            self.kw("as")
            return (q, self.ident())
        n = self.ident()
        if self.op("("):
            args = [] if self.peek() == ("op", ")") else self.exprs()
            self.needop(")")
            self.no("function in FROM: " + n)
        if self.kw("as"): return (n, self.ident())
        if self.peek()[0] == "id" and self.peek()[1] not in RESERVED: return (n, self.ident())
        return (n, n)
    def dml(self):
        c = self.ctes()
        if self.kw("insert", "into"):
            s = {"k": "insert", "ctes": c, "table": self.ident(), "alias": None, "cols": None, "conflict": None}
            if self.kw("as"): s["alias"] = self.ident()
            if self.peek() == ("op", "(") and self.peek(1) not in (("id", "select"), ("id", "with")):
                self.i += 1
                s["cols"] = [self.ident()]
                while self.op(","): s["cols"].append(self.ident())
                self.needop(")")
            s["q"] = self.query()
            if self.kw("on", "conflict"):
                target = None
                if self.op("("):
                    target = [self.ident()]
                    while self.op(","): target.append(self.ident())
                    self.needop(")")
                self.need("do")
                if self.kw("nothing"): s["conflict"] = (target, None, None)
                else:
                    self.need("update", "set")
                    st = self.sets()
                    s["conflict"] = (target, st, self.expr() if self.kw("where") else None)
        elif self.kw("update"):
            self.kw("only")
            t = self.ident()
            a = t
            if self.kw("as"): a = self.ident()
            elif self.peek()[0] == "id" and self.peek()[1] != "set": a = self.ident()
            self.need("set")
            s = {"k": "update", "ctes": c, "table": t, "alias": a, "set": self.sets(), "from": None, "where": None}
            if self.kw("from"): s["from"] = self.froms()
            if self.kw("where"): s["where"] = self.expr()
        elif self.kw("delete", "from"):
            self.kw("only")
            t = self.ident()
            a = t
            if self.kw("as"): a = self.ident()
            elif self.peek()[0] == "id" and self.peek()[1] not in RESERVED: a = self.ident()
            s = {"k": "delete", "ctes": c, "table": t, "alias": a, "from": None, "where": None}
            if self.kw("using"): s["from"] = self.froms()
            if self.kw("where"): s["where"] = self.expr()
        else:
            q = self.query()
            q["ctes"] = c + q["ctes"]
            return q
        s["returning"] = None
        if self.kw("returning"):
            items = []
            while True:
                if self.op("*"): items.append((("star", None), None))
                else:
                    e = self.expr()
                    items.append((e, self.ident() if self.kw("as") else None))
                if not self.op(","): break
            s["returning"] = items
        return s
    def sets(self):
        out = []
        while True:
            c = self.ident()
            if self.op("."): c = self.ident()
            self.needop("=")
            out.append((c, ("default",) if self.kw("default") else self.expr()))
            if not self.op(","): return out
    def coldefs(self):
        cols, uniq = [], []
        self.needop("(")
        while True:
            if self.kw("primary", "key") or self.kw("unique"):
                self.needop("(")
                u = [self.ident()]
                while self.op(","): u.append(self.ident())
                self.needop(")")
                uniq.append(u)
            else: cols.append(self.coldef(uniq))
            if not self.op(","): break
        self.needop(")")
        return cols, uniq
    def coldef(self, uniq):
        c = {"name": self.ident(), "type": self.type(), "null": True, "default": None, "ref": None}
        if c["type"] in ("serial", "bigserial"): c["default"] = ("serial",); c["type"] = "bigint" if c["type"] == "bigserial" else "integer"
        while True:
            if self.kw("not", "null"): c["null"] = False
            elif self.kw("null"): pass
            elif self.kw("default"): c["default"] = self.p_add()
            elif self.kw("primary", "key"): c["null"] = False; uniq.append([c["name"]])
            elif self.kw("unique"): uniq.append([c["name"]])
            elif self.kw("references"):
                t = self.ident()
                self.needop("(")
                rc = self.ident()
                self.needop(")")
                casc = False
                while self.kw("on"):
                    w = self.ident()
                    if self.kw("cascade"): casc = casc or w == "delete"
                    elif not (self.kw("no", "action") or self.kw("restrict")): self.no("references")
                c["ref"] = (t, rc, casc)
            else: return c
    def statement(self):
        if self.at("select") or self.at("with") or self.at("insert") or self.at("update") or self.at("delete") or self.at("values"): s = self.dml()
        elif self.kw("truncate"):
            self.kw("table")
            ts = [self.ident()]
            while self.op(","): ts.append(self.ident())
            self.kw("restart", "identity")
            s = {"k": "truncate", "tables": ts, "cascade": self.kw("cascade")}
        elif self.kw("analyze") or self.kw("vacuum"):
            while self.peek()[0] == "id": self.i += 1
            s = {"k": "nop"}
        elif self.kw("create"):
            temp = self.kw("temporary") or self.kw("temp")
            unlogged = self.kw("unlogged")
            if self.kw("table"):
                ine = self.kw("if", "not", "exists")
                n = self.ident()
                s = {"k": "create", "name": n, "ine": ine, "temp": bool(temp), "drop": False}
                if self.peek() == ("op", "("): s["cols"], s["uniq"] = self.coldefs()
                s["as"] = None
                while True:
                    if self.kw("with"):
                        self.needop("(")
                        while not self.op(")"): self.i += 1
                    elif self.kw("on", "commit", "drop"): s["drop"] = True
                    elif self.kw("on", "commit", "preserve", "rows"): pass
                    elif self.kw("as"): s["as"] = self.query()
                    else: break
            else:
                u = self.kw("unique")
                self.need("index")
                self.kw("concurrently")
                ine = self.kw("if", "not", "exists")
                n = None if self.at("on") else self.ident()
                self.need("on")
                t = self.ident()
                if self.kw("using"): self.ident()
                self.needop("(")
                cols = []
                while True:
                    cols.append(self.expr())
                    while self.peek()[0] == "id": self.i += 1
                    if not self.op(","): break
                self.needop(")")
                if self.kw("where"): self.no("partial index") if u else self.expr()
                s = {"k": "index", "unique": u, "table": t, "cols": cols, "name": n, "ine": ine}
        elif self.kw("alter", "table"):
            self.kw("if", "exists")
            t = self.ident()
            s = {"k": "alter", "table": t, "acts": []}
            while True:
                if self.kw("add"):
                    self.kw("column")
                    ine = self.kw("if", "not", "exists")
                    s["acts"].append(("add", ine, self.coldef([])))
                elif self.kw("drop"):
                    self.kw("column")
                    self.kw("if", "exists")
                    s["acts"].append(("drop", self.ident()))
                elif self.kw("alter"):
                    self.kw("column")
                    c = self.ident()
                    if self.kw("set", "not", "null"): s["acts"].append(("notnull", c, True))
                    elif self.kw("drop", "not", "null"): s["acts"].append(("notnull", c, False))
                    elif self.kw("type") or self.kw("set", "data", "type"): s["acts"].append(("type", c, self.type()))
                    elif self.kw("set", "default"): s["acts"].append(("default", c, self.p_add()))
                    else: self.no("alter column")
                else: self.no("alter table")
                if not self.op(","): break
        elif self.kw("drop"):
            k = self.ident()
            ie = self.kw("if", "exists")
            ns = [self.ident()]
            while self.op(","): ns.append(self.ident())
            self.kw("cascade")
            s = {"k": "drop", "what": k, "names": ns, "ie": ie}
        elif self.kw("set") or self.kw("lock"):
            while self.peek()[0] != "end" and self.peek() != ("op", ";"): self.i += 1
            s = {"k": "nop"}
        else: raise Unsupported("statement %r" % (self.t[self.i:self.i + 4],))
        return s
    def script(self):
        out = []
        while self.peek()[0] != "end":
            if self.op(";"): continue
            out.append(self.statement())
            if self.peek()[0] != "end" and not self.op(";"): raise Unsupported("after statement: %r" % (self.t[self.i:self.i + 6],))
        return out

_cache = {}
def parse(sql):
    if sql not in _cache:
        p = Parser(sql)
        _cache[sql] = (p.script(), p.np)
        if len(_cache) > 500: _cache.pop(next(iter(_cache)))
    return _cache[sql]

# --- storage
class Table:
    def __init__(self, name, cols, uniq, temp=False, drop=False):
        self.name, self.cols, self.uniq, self.temp, self.drop = name, cols, uniq, temp, drop
        self.rows = {}          # id -> dict; rows are never changed in place
        self.seq = 0
        self.indexes = set()
    def types(self): return {c["name"]: c["type"] for c in self.cols}

class Server:
    def __init__(self):
        self.tables = {}
        self.nextid = 1
        self.on_commit = None
        self.open = []          # transactions with changes that are not committed
    def dump(self):
        return {t.name: [dict(r) for _, r in sorted(t.rows.items())] for t in self.tables.values()}

class Session:
    """One connection"""
    def __init__(self, server, clock):
        self.s, self.clock = server, clock
        self.began = None
        self.temp = {}
        self.stack = []         # of savepoints; empty in autocommit mode
        self.failed = False
        self.changes = {}       # table -> {id: row or None}
        self.catalog = None     # private catalogue after DDL
    # -- visibility
    def cat(self): return self.catalog if self.catalog is not None else self.s.tables
    def table(self, name):
        t = self.temp.get(name) or self.cat().get(name)
        if t is None: raise ProgrammingError("relation \"%s\" does not exist" % name)
        return t
    def rows(self, t):
        if t.name in self.temp and self.temp[t.name] is t: return t.rows
        ch = self.changes.get(t.name)
        if not ch: return t.rows
        out = dict(t.rows)
        for i, r in ch.items():
            if r is None: out.pop(i, None)
            else: out[i] = r
        return out
    def put(self, t, i, row):
        if t.name in self.temp and self.temp[t.name] is t:
            if row is None: t.rows.pop(i, None)
            else: t.rows[i] = row
            return
        for o in self.s.open:
            if o is not self and i in o.changes.get(t.name, ()): raise Blocked("two transactions of the same program wait for each other (table %s)" % t.name)
        if self not in self.s.open: self.s.open.append(self)
        self.changes.setdefault(t.name, {})[i] = row
    # -- transactions
    def snapshot(self):
        return ({n: dict(c) for n, c in self.changes.items()}, None if self.catalog is None else dict(self.catalog), dict(self.temp), {n: dict(t.rows) for n, t in self.temp.items()})
    def now(self): return self.began if self.began is not None else self.clock()
    def begin(self):
        if not self.stack: self.began = self.clock()
        self.stack.append(self.snapshot())
    def commit(self):
        self.stack.pop()
        if self.stack: return
        self.began = None
        news = bool(self.changes) or self.catalog is not None
        if self.catalog is not None: self.s.tables = self.catalog
        self.catalog = None
        for n, ch in self.changes.items():
            t = self.s.tables.get(n)
            if t is None: continue
            for i, r in ch.items():
                if r is None: t.rows.pop(i, None)
                else: t.rows[i] = r
        self.changes = {}
        for n in [n for n, t in self.temp.items() if t.drop]: del self.temp[n]
        if self in self.s.open: self.s.open.remove(self)
        if news and self.s.on_commit: self.s.on_commit()
    def rollback(self):
        self.changes, self.catalog, self.temp, rows = self.stack.pop()
        for n, r in rows.items(): self.temp[n].rows = r
        self.failed = False
        if not self.stack:
            self.began = None
            if self in self.s.open: self.s.open.remove(self)
    def drop(self):
        """The connection is lost"""
        while self.stack: self.rollback()
        self.temp = {}
    # -- statements
    def execute(self, sql, params=()):
        stmts, np = parse(sql)
        if self.failed: raise OperationalError("current transaction is aborted, commands ignored until end of transaction block")
        if not isinstance(params, dict) and len(params) != np: raise ProgrammingError("the query has %d placeholders but %d parameters were passed" % (np, len(params)))
        if np and len(stmts) > 1: raise ProgrammingError("cannot insert multiple commands into a prepared statement")
        auto = not self.stack
        if auto: self.begin()
        try:
            res = None
            for s in stmts: res = Exec(self, params).run(s, {})
        except Error:
            if auto: self.rollback()
            else: self.failed = True
            raise
        if auto: self.commit()
        return res

class Rel:
    """A result: column names, rows as dicts"""
    def __init__(self, cols, rows): self.cols, self.rows = cols, rows

def b3(v): return None if v is None else bool(v)

class Exec:
    def __init__(self, sess, params):
        self.s, self.p = sess, params
        self.outer = {}
        self.ix = {}
    def sub(self, q, env, ctes):
        keep, self.outer = self.outer, {k: v for k, v in env.items() if k[0] != "#"}
        try: return self.query(q, ctes)
        finally: self.outer = keep
    def run(self, s, ctes):
        k = s["k"]
        if k in ("query", "select", "union", "values", "except", "intersect"): return self.query(s, ctes)
        if k in ("insert", "update", "delete"):
            ctes = self.with_(s["ctes"], ctes)
            return getattr(self, k)(s, ctes)
        getattr(self, "d_" + k)(s)
        return None
    def with_(self, defs, ctes):
        ctes = dict(ctes)
        for n, cols, q in defs:
            r = self.run(q, ctes)
            if r is None: raise Unsupported("cte without result")
            if cols: r = Rel(cols, [dict(zip(cols, (row[c] for c in r.cols))) for row in r.rows])
            ctes[n] = r
        return ctes
    # -- DDL
    def own(self):
        if self.s.catalog is None: self.s.catalog = dict(self.s.s.tables)
        return self.s.catalog
    def clone(self, t):
        n = Table(t.name, [dict(c) for c in t.cols], list(t.uniq), t.temp, t.drop)
        n.rows, n.seq, n.indexes = dict(t.rows), t.seq, set(t.indexes)
        return n
    def d_nop(self, s): pass
    def d_create(self, s):
        n = s["name"]
        exists = n in self.s.temp if s["temp"] else n in self.s.cat()
        if exists:
            if s["ine"]: return
            raise ProgrammingError("relation \"%s\" already exists" % n)
        if s["as"]:
            r = self.query(s["as"], {})
            raise Unsupported("create table as")
        t = Table(n, s["cols"], [[("col", None, c) for c in u] for u in s["uniq"]], s["temp"], s["drop"])
        if s["temp"]: self.s.temp[n] = t
        else: self.own()[n] = t
    def d_index(self, s):
        t = self.s.table(s["table"])
        if s["name"] in t.indexes:
            if s["ine"]: return
            raise ProgrammingError("relation \"%s\" already exists" % s["name"])
        if not t.temp:
            t = self.clone(t)
            self.own()[t.name] = t
        t.indexes.add(s["name"])
        if s["unique"]: t.uniq.append(s["cols"])
    def d_alter(self, s):
        t = self.s.table(s["table"])
        if not t.temp:
            t = self.clone(t)
            self.own()[t.name] = t
        for a in s["acts"]:
            names = [c["name"] for c in t.cols]
            if a[0] == "add":
                if a[2]["name"] in names:
                    if a[1]: continue
                    raise ProgrammingError("column exists")
                t.cols.append(a[2])
                for i, r in self.s.rows(t).items(): self.s.put(t, i, dict(r, **{a[2]["name"]: None}))
            elif a[0] == "drop": t.cols = [c for c in t.cols if c["name"] != a[1]]
            elif a[0] == "notnull":
                for c in t.cols:
                    if c["name"] == a[1]: c["null"] = not a[2]
            elif a[0] == "type":
                for c in t.cols:
                    if c["name"] == a[1]: c["type"] = a[2]
            elif a[0] == "default":
                for c in t.cols:
                    if c["name"] == a[1]: c["default"] = a[2]
    def d_drop(self, s):
        for n in s["names"]:
            if s["what"] == "table":
                if n in self.s.temp: del self.s.temp[n]
                elif n in self.s.cat(): del self.own()[n]
                elif not s["ie"]: raise ProgrammingError("table \"%s\" does not exist" % n)
    def d_truncate(self, s):
        for n in s["tables"]:
            t = self.s.table(n)
            for i in list(self.s.rows(t)): self.drop_row(t, i, s["cascade"])
    # -- writing
    def default(self, t, c):
        d = c["default"]
        if d is None: return None
        if d == ("serial",):
            t.seq += 1
            return t.seq
        return self.ev(d, {})
    def check(self, t, row, rid, ignore=False):
        """Returns the id of the row that conflicts with this one"""
        for c in t.cols:
            if row.get(c["name"]) is None and not c["null"]: raise IntegrityError("null value in column \"%s\" of relation \"%s\" violates not-null constraint" % (c["name"], t.name))
            if c["ref"] and row.get(c["name"]) is not None:
                rt = self.s.table(c["ref"][0])
                if not any(r[c["ref"][1]] == row[c["name"]] for r in self.s.rows(rt).values()): raise IntegrityError("foreign key violation")
    def keyed(self, t, u):
        """An index for this statement"""
        k = (t.name, id(u))
        if k not in self.ix:
            d = {}
            for i, r in self.s.rows(t).items():
                key = tuple(self.hash(self.ev(e, {t.name: r})) for e in u)
                if None not in key: d[key] = i
            self.ix[k] = d
        return self.ix[k]
    def hash(self, v): return tuple(v) if isinstance(v, list) else v
    def conflict(self, t, row, rid):
        for u in t.uniq:
            key = tuple(self.hash(self.ev(e, {t.name: row})) for e in u)
            if None in key: continue
            i = self.keyed(t, u).get(key)
            if i is not None and i != rid: return u, i
            for o in self.s.s.open:
                if o is self.s or t.temp: continue
                for r in o.changes.get(t.name, {}).values():
                    if r is not None and tuple(self.hash(self.ev(e, {t.name: r})) for e in u) == key: raise Blocked("two transactions of the same program wait for each other (table %s)" % t.name)
        return None
    def store(self, t, rid, row):
        old = self.s.rows(t).get(rid) if any((t.name, id(u)) in self.ix for u in t.uniq) else None
        self.s.put(t, rid, row)
        for u in t.uniq:
            k = (t.name, id(u))
            if k in self.ix:
                if old: self.ix[k].pop(tuple(self.hash(self.ev(e, {t.name: old})) for e in u), None)
                self.ix[k][tuple(self.hash(self.ev(e, {t.name: row})) for e in u)] = rid
    def insert(self, s, ctes):
        self.ix = {}
        t = self.s.table(s["table"])
        names = [c["name"] for c in t.cols]
        cols = s["cols"] or names
        for c in cols:
            if c not in names: raise ProgrammingError("column \"%s\" of relation \"%s\" does not exist" % (c, t.name))
        src = self.query(s["q"], ctes)
        types = t.types()
        ret = []
        touched = set()
        for r in src.rows:
            vals = [r[c] for c in src.cols]
            if len(vals) > len(cols): raise ProgrammingError("INSERT has more expressions than target columns")
            row = {}
            given = dict(zip(cols, vals))
            for c in t.cols:
                n = c["name"]
                row[n] = cast(given[n], types[n]) if n in given else self.default(t, c)
            self.check(t, row, None)
            cf = self.conflict(t, row, None)
            if cf:
                if not s["conflict"]: raise IntegrityError("duplicate key value violates unique constraint of \"%s\"" % t.name)
                target, sets, where = s["conflict"]
                if target is not None and sorted(target) != sorted(e[2] for e in cf[0] if e[0] == "col"):
                    if not any(sorted(target) == sorted(e[2] for e in u if e[0] == "col") for u in t.uniq): raise ProgrammingError("there is no unique or exclusion constraint matching the ON CONFLICT specification")
                    raise IntegrityError("duplicate key value violates unique constraint of \"%s\"" % t.name)
                if sets is None: continue
                if cf[1] in touched: raise ProgrammingError("ON CONFLICT DO UPDATE command cannot affect row a second time")
                old = self.s.rows(t)[cf[1]]
                env = {s["alias"] or t.name: old, "excluded": row}
                if where is not None and not self.ev(where, env, ctes): continue
                new = dict(old)
                for c, e in sets: new[c] = cast(self.ev(e, env, ctes, prefer=s["alias"] or t.name), types[c])
                self.check(t, new, cf[1])
                self.store(t, cf[1], new)
                touched.add(cf[1])
                ret.append(new)
                continue
            if s["conflict"] and s["conflict"][0] is not None and not any(sorted(s["conflict"][0]) == sorted(e[2] for e in u if e[0] == "col") for u in t.uniq):
                raise ProgrammingError("there is no unique or exclusion constraint matching the ON CONFLICT specification")
            rid = self.s.s.nextid
            self.s.s.nextid += 1
            self.store(t, rid, row)
            touched.add(rid)
            ret.append(row)
        return self.returning(s, t, ret)
    def returning(self, s, t, rows):
        if not s["returning"]: return None
        return self.project(s["returning"], [{s.get("alias") or t.name: r} for r in rows], {}, [(s.get("alias") or t.name, [c["name"] for c in t.cols])])
    def drop_row(self, t, i, cascade=False):
        row = self.s.rows(t).get(i)
        if row is None: return
        for o in list(self.s.cat().values()):
            for c in o.cols:
                if c["ref"] and c["ref"][0] == t.name:
                    for j, r in list(self.s.rows(o).items()):
                        if r[c["name"]] is not None and r[c["name"]] == row[c["ref"][1]]:
                            if c["ref"][2] or cascade: self.drop_row(o, j, cascade)
                            else: raise IntegrityError("update or delete on table \"%s\" violates foreign key constraint" % t.name)
        self.s.put(t, i, None)
    def delete(self, s, ctes):
        t = self.s.table(s["table"])
        gone = []
        for i, r in list(self.s.rows(t).items()):
            envs = self.joins(s["from"], ctes, [{s["alias"]: r}])[0] if s["from"] else [{s["alias"]: r}]
            if s["where"] is None or any(self.ev(s["where"], e, ctes) for e in envs): gone.append((i, r))
        for i, r in gone: self.drop_row(t, i)
        return self.returning(s, t, [r for _, r in gone])
    def update(self, s, ctes):
        self.ix = {}
        t = self.s.table(s["table"])
        types = t.types()
        todo = []
        for i, r in list(self.s.rows(t).items()):
            env = {s["alias"]: r}
            if s["from"]:
                hit = None
                for e in self.joins(s["from"], ctes, [env], s["where"])[0]:
                    if s["where"] is None or self.ev(s["where"], e, ctes):
                        hit = e
                        break
                if not hit: continue
                env = hit
            elif s["where"] is not None and not self.ev(s["where"], env, ctes): continue
            new = dict(r)
            for c, e in s["set"]:
                if c not in types: raise ProgrammingError("column \"%s\" does not exist" % c)
                new[c] = self.default(t, [x for x in t.cols if x["name"] == c][0]) if e == ("default",) else cast(self.ev(e, env, ctes), types[c])
            todo.append((i, new))
        ret = []
        for i, new in todo:
            self.check(t, new, i)
            if self.conflict(t, new, i): raise IntegrityError("duplicate key value violates unique constraint of \"%s\"" % t.name)
            self.store(t, i, new)
            ret.append(new)
        return self.returning(s, t, ret)
    # -- reading
    def rel(self, src, ctes):
        if isinstance(src, dict): return self.query(src, ctes)
        if src in ctes: return ctes[src]
        t = self.s.table(src)
        return Rel([c["name"] for c in t.cols], list(self.s.rows(t).values()))
    def joins(self, froms, ctes, envs=None, hint=None):
        envs = envs if envs is not None else [{}]
        shape = []
        for kind, (src, alias), on in froms:
            r = self.rel(src, ctes)
            shape.append((alias, r.cols))
            null = {c: None for c in r.cols}
            if isinstance(on, tuple) and on[0] == "using":
                e = None
                for c in on[1]:
                    x = ("cmp", "=", ("col", shape[-2][0], c), ("col", alias, c))
                    e = x if e is None else ("and", e, x)
                on = e
            # equality of one column each: use a hash
            eq = None
            for c in conj(on if on is not None else hint):
                if c[0] == "cmp" and c[1] == "=" and c[2][0] == c[3][0] == "col":
                    a, b = c[2], c[3]
                    if b[1] == alias and a[1] not in (None, alias): eq = (b[2], a)
                    elif a[1] == alias and b[1] not in (None, alias): eq = (a[2], b)
                if eq and (eq[0] not in r.cols or not all(eq[1][1] in e for e in envs[:1])): eq = None
                if eq: break
            if eq:
                ix = {}
                for row in r.rows: ix.setdefault(self.hash(row[eq[0]]), []).append(row)
            out = []
            for e in envs:
                n = 0
                cand = r.rows
                if eq:
                    v = self.ev(eq[1], e, ctes)
                    cand = ix.get(self.hash(v), ()) if v is not None else ()
                for row in cand:
                    x = dict(e)
                    x[alias] = row
                    if on is None or self.ev(on, x, ctes):
                        out.append(x)
                        n += 1
                if kind == "left" and not n:
                    x = dict(e)
                    x[alias] = null
                    out.append(x)
            envs = out
        return envs, shape
    def sortkey(self, order, env, ctes, extra=None):
        k = []
        for e, desc, nf in order:
            if e[0] == "const" and isinstance(e[1], int) and extra: v = list(extra.values())[e[1] - 1]
            elif extra is not None and e[0] == "col" and e[1] is None and e[2] in extra: v = extra[e[2]]
            else: v = self.ev(e, env, ctes)
            k.append(Key(v, desc, nf))
        return k
    def query(self, q, ctes):
        k = q["k"]
        if k == "query":
            ctes = self.with_(q["ctes"], ctes)
            r = self.select(q["q"], ctes, q["order"]) if q["q"]["k"] == "select" else self.query(q["q"], ctes)
            if q["order"] and q["q"]["k"] != "select":
                r = Rel(r.cols, sorted(r.rows, key=lambda row: self.sortkey(q["order"], {}, ctes, row)))
            rows = r.rows
            if q["offset"] is not None: rows = rows[int(self.ev(q["offset"], {}, ctes)):]
            if q["limit"] is not None: rows = rows[:int(self.ev(q["limit"], {}, ctes))]
            return Rel(r.cols, rows)
        if k == "select": return self.select(q, ctes, [])
        if k == "values":
            n = len(q["rows"][0])
            cols = ["column%d" % (i + 1) for i in range(n)]
            return Rel(cols, [dict(zip(cols, (None if e == ("col", None, "default") else self.ev(e, {}, ctes) for e in r))) for r in q["rows"]])
        a, b = self.query(q["a"], ctes), self.query(q["b"], ctes)
        if len(a.cols) != len(b.cols): raise ProgrammingError("each UNION query must have the same number of columns")
        ta = [tuple(self.hash(r[c]) for c in a.cols) for r in a.rows]
        tb = [tuple(self.hash(r[c]) for c in b.cols) for r in b.rows]
        if k == "union": rows = ta + tb if q["all"] else list(dict.fromkeys(ta + tb))
        elif k == "except": rows = [x for x in dict.fromkeys(ta) if x not in set(tb)]
        else: rows = [x for x in dict.fromkeys(ta) if x in set(tb)]
        return Rel(a.cols, [dict(zip(a.cols, r)) for r in rows])
    def select(self, s, ctes, order):
        envs, shape = self.joins(s["from"], ctes, [dict(self.outer)]) if s["from"] else ([dict(self.outer)], [])
        if s["where"] is not None: envs = [e for e in envs if self.ev(s["where"], e, ctes)]
        aggs = any(has(e, "agg") for e, _ in s["items"]) or s["group"]
        if aggs:
            groups = {}
            for e in envs: groups.setdefault(tuple(self.hash(self.ev(g, e, ctes)) for g in s["group"] or ()), []).append(e)
            if not groups and not s["group"]: groups[()] = []
            envs = [dict(g[0] if g else {}, **{"#group": g}) for g in groups.values()]
            if s["having"] is not None: envs = [e for e in envs if self.ev(s["having"], e, ctes)]
        wins = [w for e, _ in s["items"] for w in find(e, "window")] + [w for o in order for w in find(o[0], "window")]
        for w in wins:
            if w[1] not in ("row_number", "rank"): raise Unsupported("window " + w[1])
            parts = {}
            for e in envs: parts.setdefault(tuple(self.hash(self.ev(x, e, ctes)) for x in w[3]), []).append(e)
            for p in parts.values():
                p.sort(key=lambda e: self.sortkey(w[4], e, ctes))
                for n, e in enumerate(p): e["#w%d" % id(w)] = n + 1 if w[1] == "row_number" or n == 0 or self.sortkey(w[4], e, ctes) != self.sortkey(w[4], p[n - 1], ctes) else p[n - 1]["#w%d" % id(w)]
        out = self.project(s["items"], envs, ctes, shape)
        pairs = list(zip(envs, out.rows))
        if order: pairs.sort(key=lambda p: self.sortkey(order, p[0], ctes, p[1]))
        if s["distinct"]:
            seen, keep = set(), []
            for e, r in pairs:
                k = tuple(self.hash(r[c]) for c in out.cols) if s["distinct"] is True else tuple(self.hash(self.ev(x, e, ctes)) for x in s["distinct"])
                if k in seen: continue
                seen.add(k)
                keep.append((e, r))
            pairs = keep
        return Rel(out.cols, [r for _, r in pairs])
    def project(self, items, envs, ctes, shape):
        cols = []
        for e, n in items:
            if e[0] == "star":
                for a, cs in shape:
                    if e[1] in (None, a): cols += [(("col", a, c), c) for c in cs]
            else:
                cols.append((e, n or (e[2] if e[0] == "col" else e[1] if e[0] in ("func", "agg", "window") else "?column?")))
        names = [n for _, n in cols]
        return Rel(names, [{n: self.ev(e, env, ctes) for e, n in cols} for env in envs])
    # -- expressions
    def ev(self, e, env, ctes={}, prefer=None):
        k = e[0]
        if k == "const": return e[1]
        if k == "param":
            v = self.p[e[1]]
            if isinstance(v, (ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Interface, ipaddress.IPv6Interface)): return Inet(str(v))
            if isinstance(v, tuple): return list(v)
            return v
        if k == "col":
            if e[1] is not None:
                if e[1] not in env: raise ProgrammingError("missing FROM-clause entry for table \"%s\"" % e[1])
                if e[2] not in env[e[1]]: raise ProgrammingError("column %s.%s does not exist" % (e[1], e[2]))
                return env[e[1]][e[2]]
            hits = [a for a, r in env.items() if isinstance(r, dict) and e[2] in r]
            if len(hits) > 1 and "excluded" in hits: hits = [h for h in hits if h != "excluded"]
            if prefer in hits: hits = [prefer]
            if len(hits) > 1 and self.outer: hits = [h for h in hits if self.outer.get(h) is not env[h]] or hits
            if not hits: raise ProgrammingError("column \"%s\" does not exist" % e[2])
            if len(hits) > 1: raise ProgrammingError("column reference \"%s\" is ambiguous" % e[2])
            return env[hits[0]][e[2]]
        if k == "and":
            a = b3(self.ev(e[1], env, ctes))
            if a is False: return False
            b = b3(self.ev(e[2], env, ctes))
            if b is False: return False
            return None if a is None or b is None else True
        if k == "or":
            a = b3(self.ev(e[1], env, ctes))
            if a: return True
            b = b3(self.ev(e[2], env, ctes))
            if b: return True
            return None if a is None or b is None else False
        if k == "not":
            a = b3(self.ev(e[1], env, ctes))
            return None if a is None else not a
        if k == "isnull": return self.ev(e[1], env, ctes) is None
        if k == "istrue": return self.ev(e[1], env, ctes) is True
        if k == "distinct":
            a, b = self.ev(e[1], env, ctes), self.ev(e[2], env, ctes)
            return a is not b if a is None or b is None else self.cmp("<>", a, b)
        if k == "cmp": return self.cmp(e[1], self.ev(e[2], env, ctes), self.ev(e[3], env, ctes))
        if k in ("any", "allop"):
            a = self.ev(e[2], env, ctes)
            b = e[3]
            if b[0] == "sub":
                r = self.sub(b[1], env, ctes)
                vals = [x[r.cols[0]] for x in r.rows]
            elif b[0] == "list": vals = [self.ev(x, env, ctes) for x in b[1]]
            else:
                vals = self.ev(b, env, ctes)
                if vals is None: return None
            res = [self.cmp(e[1], a, v) for v in vals]
            if k == "any": return True if True in res else None if None in res else False
            return False if False in res else None if None in res else True
        if k == "exists": return bool(self.sub(e[1], env, ctes).rows)
        if k == "scalar":
            r = self.sub(e[1], env, ctes)
            if len(r.rows) > 1: raise ProgrammingError("more than one row returned by a subquery used as an expression")
            return r.rows[0][r.cols[0]] if r.rows else None
        if k == "now": return self.s.now()
        if k == "cast": return cast(self.ev(e[1], env, ctes), e[2])
        if k == "array": return [self.ev(x, env, ctes) for x in e[1]]
        if k == "case":
            for c, v in e[1]:
                if self.ev(c, env, ctes): return self.ev(v, env, ctes)
            return self.ev(e[2], env, ctes)
        if k == "arith":
            a, b = self.ev(e[2], env, ctes), self.ev(e[3], env, ctes)
            if a is None or b is None: return None
            if e[1] == "||": return a + b if isinstance(a, list) else str(a) + str(b)
            if e[1] == "+": return a + b
            if e[1] == "-": return a - b
            if e[1] == "*": return a * b
            raise Unsupported("operator " + e[1])
        if k == "window": return env["#w%d" % id(e)]
        if k == "agg":
            g = env.get("#group")
            if g is None: raise ProgrammingError("aggregate functions are not allowed here")
            if e[3]: return len(g)
            vals = [v for v in (self.ev(e[2][0], x, ctes) for x in g) if v is not None]
            if e[4]: vals = list(dict.fromkeys(self.hash(v) for v in vals))
            if e[1] == "count": return len(vals)
            if e[1] == "array_agg": return vals or None
            if not vals: return None
            if e[1] in ("min", "max", "sum"): return {"min": min, "max": max, "sum": sum}[e[1]](vals)
            if e[1] == "bool_or": return any(vals)
            if e[1] == "bool_and": return all(vals)
            raise Unsupported("aggregate " + e[1])
        if k == "func":
            a = [self.ev(x, env, ctes) for x in e[2]]
            n = e[1]
            if n == "coalesce":
                for v in a:
                    if v is not None: return v
                return None
            if n == "nullif": return None if a[0] is not None and self.cmp("=", a[0], a[1]) else a[0]
            if n in ("greatest", "least"):
                a = [v for v in a if v is not None]
                return (max if n == "greatest" else min)(a) if a else None
            if None in a: return None
            if n == "family": return cast(a[0], "inet").v
            if n == "masklen": return cast(a[0], "inet").p
            if n in ("upper", "lower"): return getattr(a[0], n)()
            if n == "length": return len(a[0])
            if n == "network": return cast(a[0], "inet")
            if n == "trim": return a[0].strip()
            raise Unsupported("function " + n)
        raise Unsupported("expression " + k)
    def cmp(self, op, a, b):
        if a is None or b is None: return None
        if op in (">>=", "<<=", ">>", "<<", "&&") or isinstance(a, Inet) or isinstance(b, Inet):
            a, b = cast(a, "inet"), cast(b, "inet")
        elif isinstance(a, bool) or isinstance(b, bool): a, b = cast(a, "boolean"), cast(b, "boolean")
        elif isinstance(a, (int, float)) and isinstance(b, str): b = cast(b, "bigint")
        elif isinstance(b, (int, float)) and isinstance(a, str): a = cast(a, "bigint")
        if op == "=": return a == b
        if op in ("<>", "!="): return a != b
        if op == "<": return a < b
        if op == ">": return a > b
        if op == "<=": return a <= b
        if op == ">=": return a >= b
        if op == ">>=": return a.contains(b)
        if op == "<<=": return b.contains(a)
        if op == ">>": return a != b and a.contains(b)
        if op == "<<": return a != b and b.contains(a)
        return a.contains(b) or b.contains(a)

def conj(e):
    if e is None: return []
    return conj(e[1]) + conj(e[2]) if e[0] == "and" else [e]
def find(e, k):
    if not isinstance(e, (tuple, list)): return []
    if isinstance(e, tuple) and e and e[0] == k: return [e]
    return [x for y in e for x in find(y, k)]
def has(e, k): return bool(find(e, k))

@functools.total_ordering
class Key:
    __slots__ = ("v", "desc", "nf")
    def __init__(self, v, desc, nf): self.v, self.desc, self.nf = v, desc, nf
    def __eq__(self, o): return self.v == o.v
    def __lt__(self, o):
        if self.v is None or o.v is None:
            if self.v is None and o.v is None: return False
            return self.nf if self.v is None else not self.nf
        return o.v < self.v if self.desc else self.v < o.v

# psycopg and psycopg_pool on top of the simulated server
import contextlib, enum, ipaddress, os, random, sys, types
import pg

class Rollback(Exception):
    def __init__(self, transaction=None): self.transaction = transaction

class Control:
    """Counts what goes over the wire and decides what fails"""
    def __init__(self, server, clock, faults, seed, note, quit):
        self.server, self.clock, self.note, self.quit = server, clock, note, quit
        self.rng = random.Random(seed)
        self.statements = self.commits = 0
        self.at = {}
        for f in faults:
            p = f.split(":")
            if p[0] in ("db", "commit"): self.at[(p[0], int(p[1]))] = p[2]
    def statement(self, conn):
        self.statements += 1
        k = self.at.get(("db", self.statements))
        if not k: return
        self.note(4, "db " + k)
        if k == "kill": self.quit(99)
        if k == "lost":
            conn.lose()
            raise pg.OperationalError("server closed the connection unexpectedly")
        conn.session.failed = bool(conn.session.stack)
        raise {"full": pg.OperationalError, "lock": pg.OperationalError, "serial": pg.OperationalError}[k](
            {"full": "could not extend file: No space left on device", "lock": "canceling statement due to lock timeout", "serial": "could not serialize access due to concurrent update"}[k])
    def commit(self, conn, when):
        if when == "before": self.commits += 1
        k = self.at.get(("commit", self.commits))
        if k in ("lost" + when, "kill" + when):
            self.note(4, "commit " + k)
            if k.startswith("kill"): self.quit(99)
            conn.lose()
            raise pg.OperationalError("server closed the connection unexpectedly")

CTL = None

def out(v):
    if isinstance(v, pg.Inet): return v.out()
    return v

def guard(fn):
    def run(*a, **k):
        try: return fn(*a, **k)
        except pg.Unsupported as e:
            CTL.note(5, "unsupported: %s" % e)
            CTL.quit(97)
        except pg.Blocked as e:
            CTL.note(9, str(e))
            CTL.quit(98)
    return run

class Cursor:
    def __init__(self, conn, row_factory=None):
        self.connection = self.conn = conn
        self.row_factory = row_factory
        self.res = None
        self.pos = 0
        self.rowcount = -1
        self.arraysize = 1
        self.itersize = 100
        self.closed = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True
    @guard
    def execute(self, query, params=None, *, prepare=None, binary=None):
        self.pos = 0
        self.res = self.conn._execute(query, params if params is not None else ())
        if self.res: self.rowcount = len(self.res.rows)
        return self
    @guard
    def executemany(self, query, params_seq, *, returning=False):
        for p in params_seq: self.conn._execute(query, p)
    @property
    def description(self):
        return [types.SimpleNamespace(name=c) for c in self.res.cols] if self.res else None
    def _row(self, r):
        f = self.row_factory or self.conn.row_factory
        if f is dict_row: return {c: out(r[c]) for c in self.res.cols}
        if f is None or f is tuple_row: return tuple(out(r[c]) for c in self.res.cols)
        return guard(lambda: (_ for _ in ()).throw(pg.Unsupported("row factory")))()
    def _need(self):
        self.conn._sync()
        if self.res is None: raise pg.ProgrammingError("the last operation didn't produce a result")
    def fetchone(self):
        self._need()
        if self.pos >= len(self.res.rows): return None
        self.pos += 1
        return self._row(self.res.rows[self.pos - 1])
    def fetchmany(self, size=0):
        size = size or self.arraysize
        o = []
        while len(o) < size:
            r = self.fetchone()
            if r is None: break
            o.append(r)
        return o
    def fetchall(self): return list(self)
    def __iter__(self):
        self._need()
        while True:
            r = self.fetchone()
            if r is None: return
            yield r
    def copy(self, *a, **k): guard(lambda: (_ for _ in ()).throw(pg.Unsupported("copy")))()
    def stream(self, query, params=None, **k):
        self.execute(query, params)
        return iter(self)

class TransactionStatus(enum.IntEnum):
    IDLE, ACTIVE, INTRANS, INERROR, UNKNOWN = range(5)

class Info:
    def __init__(self, conn): self.conn = conn
    @property
    def transaction_status(self):
        s = self.conn.session
        return TransactionStatus.UNKNOWN if self.conn.closed else TransactionStatus.INERROR if s.failed else TransactionStatus.INTRANS if s.stack else TransactionStatus.IDLE

class Connection:
    def __init__(self):
        self.session = pg.Session(CTL.server, CTL.clock)
        self.autocommit = False
        self.row_factory = None
        self.closed = False
        self.broken = False
        self.pipes = 0
        self.pending = None         # an error that has not been delivered yet
        self.aborted = False
        self.transactions = 0
        self.info = Info(self)
    def lose(self):
        self.session.drop()
        self.closed = self.broken = True
    def set_autocommit(self, v): self.autocommit = v
    def cursor(self, *a, row_factory=None, **k): return Cursor(self, row_factory)
    def execute(self, query, params=None, **k): return self.cursor().execute(query, params)
    def _alive(self):
        if self.closed: raise pg.OperationalError("the connection is closed")
    def _execute(self, query, params):
        if self.pipes:
            if self.pending is not None:
                if CTL.rng.random() < 0.3: self._sync()
                return None
            if self.aborted: raise pg.OperationalError("pipeline aborted")
            try: return self._now(query, params)
            except pg.Error as e:
                self.pending = e
                return None
        return self._now(query, params)
    def _now(self, query, params):
        self._alive()
        CTL.statement(self)
        if not isinstance(query, str): raise pg.Unsupported("query of type %s" % type(query))
        if not isinstance(params, dict): params = tuple(params)
        if not self.autocommit and not self.session.stack: self.session.begin()
        return self.session.execute(query, params)
    def _sync(self):
        if self.pending is not None:
            e, self.pending = self.pending, None
            self.aborted = self.pipes > 0
            raise e
    def commit(self):
        self._alive()
        if not self.session.stack: return
        if self.session.failed: return self.session.rollback()
        CTL.commit(self, "before")
        self.session.commit()
        CTL.commit(self, "after")
    def rollback(self):
        while self.session.stack: self.session.rollback()
    def close(self):
        self.session.drop()
        self.closed = True
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        if t: self.rollback()
        else: self.commit()
        self.close()
    @contextlib.contextmanager
    def transaction(self, savepoint_name=None, force_rollback=False):
        self._alive()
        s = self.session
        if s.failed: raise pg.OperationalError("current transaction is aborted, commands ignored until end of transaction block")
        index = self.transactions
        self.transactions += 1
        s.begin()
        depth = len(s.stack)
        def pop():
            self.transactions -= 1
            if self.transactions != index: raise pg.ProgrammingError("transaction commit/rollback in the wrong order")
        try:
            yield self
            if self.pipes: self._sync()
            self._alive()
        except Rollback:
            pop()
            if not self.closed: s.rollback()
            return
        except BaseException:
            pop()
            if not self.closed and len(s.stack) >= depth: s.rollback()
            raise
        pop()
        if force_rollback: return s.rollback()
        if depth > 1:
            if s.failed:
                s.rollback()
                raise pg.OperationalError("current transaction is aborted, commands ignored until end of transaction block")
            s.commit()
        else: self.commit()
    @contextlib.contextmanager
    def pipeline(self):
        self._alive()
        self.pipes += 1
        try:
            yield self
            self._sync()
        finally:
            self.pipes -= 1
            if not self.pipes: self.pending, self.aborted = None, False

class ConnectionPool:
    def __init__(self, conninfo="", *, configure=None, min_size=4, max_size=None, open=True, kwargs=None, **k):
        self.configure = configure
        self.max_size = max_size if max_size is not None else min_size
        self.kwargs = kwargs or {}
        self.free = []
        self.used = 0
        for i in range(min(min_size, 1)): self.free.append(self._make())
    def _make(self):
        c = Connection()
        for k, v in self.kwargs.items():
            if k in ("autocommit", "row_factory"): setattr(c, k, v)
        if self.configure: self.configure(c)
        return c
    def getconn(self, timeout=None):
        if self.used >= self.max_size: 
            CTL.note(9, "waits for a database connection forever (all %d are in use)" % self.used)
            CTL.quit(98)
        self.used += 1
        while self.free:
            c = self.free.pop()
            if not c.closed: return c
        return self._make()
    def putconn(self, c):
        self.used -= 1
        if not c.closed:
            c.rollback()
            self.free.append(c)
    @contextlib.contextmanager
    def connection(self, timeout=None):
        c = self.getconn()
        try:
            with_ok = False
            try:
                yield c
                with_ok = True
            finally:
                if with_ok and not c.closed: c.commit()
                elif not c.closed: c.rollback()
        finally: self.putconn(c)
    def open(self, *a, **k): pass
    def wait(self, *a, **k): pass
    def close(self, *a, **k): pass
    def check(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

def dict_row(cursor): pass
def tuple_row(cursor): pass

def install():
    m = types.ModuleType("psycopg")
    r = types.ModuleType("psycopg.rows")
    r.dict_row, r.tuple_row = dict_row, tuple_row
    e = types.ModuleType("psycopg.errors")
    for x in (m, e):
        x.Error, x.DataError, x.IntegrityError, x.OperationalError, x.ProgrammingError = pg.Error, pg.DataError, pg.IntegrityError, pg.OperationalError, pg.ProgrammingError
        x.DatabaseError = pg.Error
        x.UniqueViolation = pg.IntegrityError
    m.rows, m.errors, m.Connection, m.Cursor, m.Rollback = r, e, Connection, Cursor, Rollback
    def connect(*a, autocommit=False, row_factory=None, **k):
        c = Connection()
        c.autocommit, c.row_factory = autocommit, row_factory
        return c
    m.connect = connect
    m.pq = types.ModuleType("psycopg.pq")
    m.pq.TransactionStatus = TransactionStatus
    p = types.ModuleType("psycopg_pool")
    p.ConnectionPool = ConnectionPool
    p.PoolTimeout = pg.OperationalError
    sys.modules.update({"psycopg": m, "psycopg.rows": r, "psycopg.errors": e, "psycopg.pq": m.pq, "psycopg_pool": p})

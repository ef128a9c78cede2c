# An event loop whose clock, threads and turns are decided by the simulator
import asyncio, os, random, threading

class Worker:
    def __init__(self, sched, fn):
        self.sched, self.fn = sched, fn
        self.go = threading.Lock()
        self.go.acquire()
        self.wake = 0
        self.done = False
        self.result = self.error = None
        self.t = threading.Thread(target=self.main, daemon=True)
        self.t.start()
    def main(self):
        self.go.acquire()
        self.sched.current = self
        try: self.result = self.fn()
        except BaseException as e: self.error = e
        self.done = True
        self.sched.back.release()

class Sched:
    """Runs at most one thread at a time; hands over only where a thread waits for the network"""
    def __init__(self, S, seed, stuck):
        self.S, self.rng, self.stuck = S, random.Random(seed), stuck
        self.back = threading.Lock()
        self.back.acquire()
        self.workers = []
        self.current = None
        self.turns = 0
        self.loop = None
        self.trace = []
    def pause(self, ns=0):
        """Called by a thread: somebody else may run now; continue when the time has passed"""
        w = self.current
        w.wake = self.S.now + ns
        self.back.release()
        w.go.acquire()
        self.current = w
    def slice(self, w):
        self.turns += 1
        self.trace.append(self.workers.index(w))
        w.go.release()
        self.back.acquire()
        self.current = None
        if w.done:
            self.workers.remove(w)
            w.finished(w)
    def start(self, fn, finished):
        w = Worker(self, fn)
        w.wake = self.S.now
        w.finished = finished
        self.workers.append(w)
    def turn(self, timeout):
        """What happens while the event loop waits this long (forever, if None)"""
        run = [w for w in self.workers if w.wake <= self.S.now]
        if timeout is not None and timeout <= 0:
            if run and self.rng.random() < 0.4: self.slice(self.rng.choice(run))
            return
        if run: return self.slice(self.rng.choice(run))
        t = [w.wake for w in self.workers]
        if timeout is not None: t.append(self.S.now + int(timeout * 1e9) + 1)
        if not t: self.stuck("waits although nothing is ever going to happen")
        self.S.now = max(self.S.now, min(t))

class Selector:
    def __init__(self, sched): self.sched = sched
    def register(self, *a): pass
    def unregister(self, *a): pass
    def modify(self, *a): pass
    def get_map(self): return {}
    def get_key(self, f): raise KeyError(f)
    def close(self): pass
    def select(self, timeout=None):
        self.sched.turn(timeout)
        return []

class Task(asyncio.Task):
    """A task whose place in a set does not depend on its address"""
    count = 0
    def __init__(self, *a, **k):
        Task.count += 1
        self.number = Task.count
        asyncio.Task.__init__(self, *a, **k)
    def __hash__(self): return self.number

class Loop(asyncio.SelectorEventLoop):
    def __init__(self, sched):
        self.sched = sched
        asyncio.SelectorEventLoop.__init__(self, Selector(sched))
        self.set_task_factory(lambda loop, coro, **k: Task(coro, loop=loop, **k))
        self._clock_resolution = 1e-9
    def _make_self_pipe(self): pass
    def _close_self_pipe(self): pass
    def _write_to_self(self): pass
    def time(self): return self.sched.S.now / 1e9
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        def finished(w):
            def deliver():
                if fut.done(): return
                if w.error is not None: fut.set_exception(w.error)
                else: fut.set_result(w.result)
            self.call_soon(deliver)
        self.sched.start(lambda: func(*args), finished)
        return fut
    async def shutdown_default_executor(self, timeout=None):
        while self.sched.workers: self.sched.turn(None)
    async def create_unix_connection(self, *a, **k): self.sched.unsupported("asynchronous sockets")
    async def create_connection(self, *a, **k): self.sched.unsupported("asynchronous sockets")

class Policy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, sched):
        asyncio.DefaultEventLoopPolicy.__init__(self)
        self.sched = sched
    def new_event_loop(self): return Loop(self.sched)

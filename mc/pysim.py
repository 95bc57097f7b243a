"""Simulated threads, time and sockets for Python code under test.

Modules imported with load() see stand-ins for threading, queue, socket and time.  Exactly one
simulated thread runs at a time (they are OS threads that hand over a baton); every call of a
stand-in, and every access to the attributes given to watch(), is a scheduling point where the
explorer may let another thread run, as long as the budget of such deviations lasts.  Time is
virtual and moves only when nothing can run."""
import _thread, collections, errno, importlib, os, socket as rsocket, sys, threading as rthreading, types
from pyexplore import pick, note, Violation
import pyexplore as mc


class Abort(BaseException):
    pass


class Sim:
    pass


S = Sim()
HORIZON = 300.0


def reset(budget, slice_=None):
    """slice_: (k, n): the first deviation is at a scheduling point with number = k modulo n"""
    S.threads, S.cur, S.now, S.budget, S.abort, S.viol = [], None, 0.0, budget, False, None
    S.slice, S.first, S.npoint = slice_, True, 0
    S.timers = []           # (time, number, function)
    S.seq = 0
    S.done = _thread.allocate_lock(); S.done.acquire()
    S.socks = []
    S.bound = {}            # (type, address) -> Sock
    S.policy = []           # results of the next connection attempts
    S.bindpolicy = []
    S.acceptpolicy = []     # errors of the next accept calls that would succeed
    S.port = 40000
    S.limit = HORIZON
    S.sent = []
    S.failed_threads = []
    S.steps = 0


class T:
    """a simulated thread"""
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.lock = _thread.allocate_lock(); self.lock.acquire()
        self.started = self.done = False
        self.wait = None        # condition it waits for, or None
        self.deadline = None
        self.timedout = False
        self.ident = 0
        self.idx = 0

    def start(self):
        self.started = True
        self.idx = len(S.threads)
        S.threads.append(self)
        _thread.start_new_thread(self.run, ())

    def run(self):
        self.lock.acquire()
        self.ident = _thread.get_ident()
        try:
            if not S.abort:
                self.fn()
        except Abort:
            pass
        except Violation as e:
            violate(str(e))
        except BaseException as e:
            import traceback
            f = traceback.extract_tb(e.__traceback__)[-1]
            what = "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)
            if self.idx == 0:
                violate("exception " + what)
            else:
                violate("a thread ends with an exception: " + what)
        self.done = True
        leave()


def violate(what):
    if S.viol is None:
        S.viol = what
    S.abort = True


def enabled(t):
    if t.done or not t.started:
        return False
    if t.wait is None:
        return True
    if t.wait():
        return True
    return t.deadline is not None and S.now >= t.deadline


def candidates(cur):
    """threads that can run, the current one first, then the others in a circle"""
    n = len(S.threads)
    k = cur.idx if cur is not None else 0
    return [t for t in (S.threads[(k + i) % n] for i in range(n)) if enabled(t)]


def advance():
    """nothing can run: move the time to the next event; False if there is none"""
    ds = [t.deadline for t in S.threads if not t.done and t.wait is not None and t.deadline is not None]
    ds += [x[0] for x in S.timers]
    if not ds or min(ds) > S.limit:
        return False
    S.now = max(S.now, min(ds))
    while S.timers and min(S.timers)[0] <= S.now:
        x = min(S.timers); S.timers.remove(x)
        x[2]()
    return True


def choose_next(cur, free):
    """the thread to run next"""
    while True:
        c = candidates(cur)
        if c:
            break
        if S.abort:
            return None
        if not advance():
            return None
    S.npoint += 1
    if len(c) == 1 or S.budget <= 0 or S.abort:
        return c[0]
    if S.first and S.slice is not None and S.npoint % S.slice[1] != S.slice[0]:
        return c[0]
    k = pick(len(c), "schedule")
    if k:
        S.budget -= 1; S.first = False
        if mc.R.notes is not None:
            note("schedule %s instead of %s", c[k].name, c[0].name)
    return c[k]


def switch(cur):
    """scheduling point of the running thread (or it cannot run)"""
    if S.abort:
        raise Abort()
    S.steps += 1
    if S.steps & 63 == 0:
        mc.beat()
    if S.steps > 200000:
        violate("no end")
        raise Abort()
    nxt = choose_next(cur, False)
    if nxt is None:
        violate(stuck())
        raise Abort()
    if nxt is not cur:
        S.cur = nxt
        nxt.lock.release()
        cur.lock.acquire()
        if S.abort:
            raise Abort()
    return


def stuck():
    m = S.threads[0]
    return "%s, the threads wait for ever: %s" % ("the program does not end" if not m.done else "threads are left", ", ".join("%s in %s" % (t.name, getattr(t, "what", "?")) for t in S.threads if not t.done))


def leave():
    """the current thread is over"""
    if S.abort:
        for t in S.threads:
            if not t.done:
                S.cur = t
                t.lock.release()
                return
        S.done.release()
        return
    if S.threads[0].done:
        # the program is over: nothing else may be left
        rest = [t for t in S.threads if not t.done]
        if rest:
            violate("threads are left when everything is stopped: " + ", ".join("%s in %s" % (t.name, getattr(t, "what", "?")) for t in rest))
            leave()
            return
        S.done.release()
        return
    try:
        nxt = choose_next(S.threads[0] if False else S.cur, True)
    except BaseException as e:
        violate("%s: %s" % (type(e).__name__, e)); nxt = None
    if nxt is None:
        if S.viol is None:
            violate(stuck())
        leave()
        return
    S.cur = nxt
    nxt.lock.release()


def me():
    t = S.cur
    return t if t is not None and t.ident == _thread.get_ident() else None


def point():
    t = me()
    if t is not None:
        switch(t)


def block(cond, timeout=None, what="?"):
    """waits until cond() is true; False if the time ran out"""
    t = me()
    if t is None:
        raise RuntimeError("simulated call outside of the simulation")
    t.wait, t.what = cond, what
    t.deadline = None if timeout is None else S.now + timeout
    try:
        switch(t)
        return bool(cond())
    finally:
        t.wait = t.deadline = None


def run(fn):
    """runs a simulated program; raises Violation"""
    m = T(fn, "main")
    m.start()
    S.cur = m
    m.lock.release()
    S.done.acquire()
    if S.viol:
        raise Violation(S.viol)


def at(delay, fn):
    S.seq += 1
    S.timers.append((S.now + delay, S.seq, fn))


# ---------------------------------------------------------------- threading
class Thread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self._t = None
        self.name = name or getattr(target, "__name__", "thread")

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        self._t = T(self.run, self.name)
        self._t.start()
        point()

    def join(self, timeout=None):
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._t is me():
            raise RuntimeError("cannot join current thread")
        block(lambda: self._t.done, timeout, "join of " + self.name)

    def is_alive(self):
        return self._t is not None and not self._t.done

    isAlive = is_alive
    ident = property(lambda self: self._t.ident if self._t else None)


class Lock:
    def __init__(self):
        self.owner = None; self.count = 0

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        if not blocking:
            point()
            if not self._free():
                return False
        elif not block(self._free, None if timeout is None or timeout < 0 else timeout, "lock"):
            return False
        self.owner, self.count = S.cur, 1
        return True

    def release(self):
        if S.abort:
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner, self.count = None, 0
        point()

    def locked(self):
        return self.owner is not None

    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()


class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None and self.owner is me():
            self.count += 1
            return True
        return Lock.acquire(self, blocking, timeout)

    def release(self):
        if S.abort:
            return
        if self.owner is not me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            point()


class Condition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else RLock()
        self.waiters = []

    def acquire(self, *a): return self.lock.acquire(*a)
    def release(self): self.lock.release()
    def __enter__(self): self.lock.acquire(); return self
    def __exit__(self, *a): self.lock.release()

    def wait(self, timeout=None):
        if self.lock.owner is not me():
            raise RuntimeError("cannot wait on un-acquired lock")
        w = [False]
        self.waiters.append(w)
        n = self.lock.count
        self.lock.owner, self.lock.count = None, 0
        r = block(lambda: w[0], timeout, "wait of a condition")
        if w in self.waiters:
            self.waiters.remove(w)
        block(self.lock._free, None, "lock")
        self.lock.owner, self.lock.count = S.cur, n
        return r

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else S.now + timeout
        r = predicate()
        while not r:
            if end is not None and S.now >= end:
                break
            self.wait(None if end is None else end - S.now)
            r = predicate()
        return r

    def notify(self, n=1):
        if self.lock.owner is not me():
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class Semaphore:
    bounded = False

    def __init__(self, value=1):
        self.value = self.initial = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            point()
            if self.value <= 0:
                return False
        elif not block(lambda: self.value > 0, timeout, "semaphore"):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        if S.abort:
            return
        if self.bounded and self.value + n > self.initial:
            raise ValueError("Semaphore released too many times")
        self.value += n
        point()

    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()


class BoundedSemaphore(Semaphore):
    bounded = True


class Event:
    def __init__(self): self.flag = False
    def is_set(self): point(); return self.flag
    isSet = is_set
    def set(self): self.flag = True; point()
    def clear(self): self.flag = False; point()
    def wait(self, timeout=None): return block(lambda: self.flag, timeout, "event")


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self, name="timer")
        self.interval, self.function, self.args, self.kwargs, self.finished = interval, function, args or [], kwargs or {}, Event()

    def cancel(self): self.finished.set()

    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.args, **self.kwargs)


threading = types.ModuleType("threading")
threading.__dict__.update(Thread=Thread, Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore, BoundedSemaphore=BoundedSemaphore,
                          Event=Event, Timer=Timer, local=rthreading.local, get_ident=_thread.get_ident, current_thread=lambda: S.cur, currentThread=lambda: S.cur)


# ---------------------------------------------------------------- queue, time
class Empty(Exception): pass
class Full(Exception): pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize, self.queue = maxsize, collections.deque()

    def put(self, x, block_=True, timeout=None):
        if self.maxsize > 0 and not block(lambda: len(self.queue) < self.maxsize, timeout if block_ else 0, "put"):
            raise Full()
        point()
        self.queue.append(x)

    def get(self, block=True, timeout=None):
        if not block or (timeout is not None and timeout <= 0):
            point()
            if not self.queue:
                raise Empty()
        elif not globals()["block"](lambda: len(self.queue) > 0, timeout, "get"):
            raise Empty()
        return self._take()

    def _take(self): return self.queue.popleft()
    def put_nowait(self, x): self.put(x, False)
    def get_nowait(self): return self.get(False)
    def empty(self): point(); return not self.queue
    def qsize(self): point(); return len(self.queue)
    def full(self): return self.maxsize > 0 and len(self.queue) >= self.maxsize
    def task_done(self): pass


class LifoQueue(Queue):
    def _take(self): return self.queue.pop()


SimpleQueue = Queue
queue = types.ModuleType("queue")
queue.__dict__.update(Queue=Queue, LifoQueue=LifoQueue, SimpleQueue=Queue, Empty=Empty, Full=Full)


def sleep(t):
    block(lambda: False, t, "sleep")


time = types.ModuleType("time")
time.__dict__.update(time=lambda: 1000000.0 + S.now, monotonic=lambda: S.now, sleep=sleep, perf_counter=lambda: S.now)


# ---------------------------------------------------------------- sockets
def oserr(e):
    return OSError(e, os.strerror(e))


class Sock:
    """one socket, of the code under test (lib) or of the environment"""
    def __init__(self, family=rsocket.AF_INET, type=rsocket.SOCK_STREAM, proto=0, fileno=None):
        self.family, self.type, self.proto = family, type, proto
        self.lib = True
        self.init()
        point()

    def init(self):
        self.closed = False
        self.timeout = None
        self.addr = ("0.0.0.0", 0)
        self.peeraddr = None
        self.peer = None            # the other end of the connection
        self.rx = bytearray()
        self.rxeof = self.rst = self.rdshut = self.wrshut = self.fin = False
        self.err = 0                # error of the next operation
        self.full = False           # the peer does not take anything
        self.backlog = None         # of a listening socket
        self.dg = collections.deque()
        self.opts = {}
        self.connecting = False
        S.socks.append(self)

    @classmethod
    def env(cls, type=rsocket.SOCK_STREAM):
        s = cls.__new__(cls)
        s.family, s.type, s.proto, s.lib = rsocket.AF_INET, type, 0, False
        s.init()
        return s

    def chk(self):
        point()
        if self.closed:
            raise oserr(errno.EBADF)

    def fileno(self): return -1 if self.closed else 100 + S.socks.index(self)
    def settimeout(self, t): self.chk(); self.timeout = t
    def gettimeout(self): return self.timeout
    def setblocking(self, b): self.chk(); self.timeout = None if b else 0.0
    def setsockopt(self, *a): self.chk(); self.opts[a[0], a[1]] = a[2]
    def getsockopt(self, l, o, n=0): self.chk(); return self.opts.get((l, o), 0)
    def getsockname(self): self.chk(); return self.addr
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def getpeername(self):
        self.chk()
        if self.peeraddr is None or self.rst or (self.rxeof and self.wrshut):
            raise oserr(errno.ENOTCONN)
        return self.peeraddr

    def bind(self, addr):
        self.chk()
        if S.bindpolicy:
            e = S.bindpolicy.pop(0)
            if e:
                raise oserr(e)
        if addr[1] == 0:
            S.port += 1; addr = (addr[0], S.port)
        o = S.bound.get((self.type, addr))
        if o is not None and not o.closed and not (self.type == rsocket.SOCK_DGRAM and self.opts.get((rsocket.SOL_SOCKET, rsocket.SO_REUSEADDR)) and o.opts.get((rsocket.SOL_SOCKET, rsocket.SO_REUSEADDR))):
            raise oserr(errno.EADDRINUSE)
        self.addr = addr
        S.bound[self.type, addr] = self

    def listen(self, n=128):
        self.chk()
        self.backlog = collections.deque()

    def _accept(self):
        x = self.backlog.popleft()
        x.lib = self.lib
        return x, x.peeraddr or ("127.0.0.1", 1)

    def accept(self):
        self.chk()
        if not block(lambda: self.backlog is None or self.backlog or self.rdshut or self.closed, self.timeout, "accept"):
            raise rsocket.timeout("timed out")
        if self.closed: raise oserr(errno.EBADF)
        if self.backlog is None or self.rdshut: raise oserr(errno.EINVAL)
        if S.acceptpolicy and self.lib: raise oserr(S.acceptpolicy.pop(0))
        return self._accept()

    # a connection between two ends
    def _link(self, lst, addr):
        b = Sock.env(); b.lib = False
        if self.addr[1] == 0:
            S.port += 1; self.addr = ("127.0.0.1", S.port)
        b.addr, b.peeraddr = addr, self.addr
        self.peeraddr = addr
        self.peer, b.peer = b, self
        lst.backlog.append(b)
        return b

    def connect(self, addr):
        self.chk()
        S.sent.append((S.now, "connect"))
        what = S.policy.pop(0) if S.policy else "ok"
        if what == "slow":
            self.connecting = True
            block(lambda: self.rdshut or self.closed, 0.4, "connect")
            self.connecting = False
            what = "ok"
        elif what == "timeout":
            self.connecting = True
            if not block(lambda: self.rdshut or self.closed, self.timeout if self.timeout is not None else 120.0, "connect"):
                self.connecting = False
                if self.timeout is not None: raise rsocket.timeout("timed out")
                raise oserr(errno.ETIMEDOUT)
            self.connecting = False
        if self.rdshut:
            raise oserr(errno.ECONNRESET)
        if self.closed:
            raise oserr(errno.EBADF)
        l = S.bound.get((self.type, addr))
        if isinstance(what, int):
            raise oserr(what)
        if l is None or l.closed or l.backlog is None or l.rdshut:
            raise oserr(errno.ECONNREFUSED)
        b = self._link(l, addr)
        if what == "reset":
            b.env_reset()

    def recv(self, n, flags=0):
        self.chk()
        if self.peer is None and not self.rst: raise oserr(errno.ENOTCONN)
        if not block(lambda: self.rx or self.rxeof or self.rst or self.rdshut or self.closed, self.timeout, "recv"):
            raise rsocket.timeout("timed out")
        if self.closed: raise oserr(errno.EBADF)
        if self.rx:
            d = bytes(self.rx[:n]); del self.rx[:n]
            return d
        if not self.fin: self._error()
        return b""

    def _error(self):
        e, self.err = self.err, 0
        if e: raise oserr(e)

    def _reset(self):
        if self.rst: return
        self.err = errno.EPIPE if self.fin else errno.ECONNRESET
        self.rst = self.rxeof = True

    def _fin(self):
        if not self.rst: self.rxeof = self.fin = True

    def _send(self, d):
        self._error()
        if self.wrshut or self.rst: raise oserr(errno.EPIPE)
        if self.peer is None: raise oserr(errno.ENOTCONN)
        p = self.peer
        if p.closed: self._reset()
        elif p.rdshut: p._reset(); self._reset()
        else: p.rx += d

    def sendall(self, d, flags=0):
        self.chk()
        block(lambda: not self.full or self.wrshut or self.rst or self.closed, None, "sendall")
        if self.closed: raise oserr(errno.EBADF)
        self._send(d)

    def send(self, d, flags=0):
        self.sendall(d)
        return len(d)

    def recvfrom(self, n, flags=0):
        self.chk()
        if not block(lambda: self.dg or self.closed or (self.rdshut and self.timeout is None), self.timeout, "recvfrom"):
            raise rsocket.timeout("timed out")
        if self.closed: raise oserr(errno.EBADF)
        if self.dg:
            d, a = self.dg.popleft()
            return d[:n], a
        return b"", None

    def sendto(self, d, *a):
        self.chk()
        addr = a[-1]
        if self.wrshut: raise oserr(errno.EPIPE)
        if self.addr[1] == 0:
            S.port += 1; self.addr = ("127.0.0.1", S.port)
        p = S.bound.get((rsocket.SOCK_DGRAM, addr))
        if p is not None and not p.closed:
            p.dg.append((bytes(d), self.addr))
        return len(d)

    def shutdown(self, how):
        self.chk()
        rd, wr = how in (rsocket.SHUT_RD, rsocket.SHUT_RDWR), how in (rsocket.SHUT_WR, rsocket.SHUT_RDWR)
        conn = (self.peer is not None and not self.rst and not (self.rxeof and self.wrshut)) or (self.backlog is not None and not self.rdshut) or self.connecting
        if rd: self.rdshut = True
        if wr:
            self.wrshut = True
            if self.peer is not None: self.peer._fin()
        if not conn: raise oserr(errno.ENOTCONN)

    def close(self):
        point()
        self._close()

    def _close(self):
        if self.closed: return
        self.closed = True
        if S.bound.get((self.type, self.addr)) is self: del S.bound[self.type, self.addr]
        for b in self.backlog or []:
            b.env_reset()
        p = self.peer
        if p is not None:
            if self.rx: p._reset()
            p._fin()

    # ---- the environment's side: no scheduling point
    def env_connect(self, addr):
        l = S.bound.get((self.type, addr))
        if l is None or l.closed or l.backlog is None or l.rdshut: return False
        self._link(l, addr)
        return True

    def env_send(self, d):
        try: self._send(d)
        except OSError: pass

    def env_eof(self):
        self.wrshut = True
        if self.peer is not None: self.peer._fin()
    def env_close(self): self._close()

    def env_reset(self):
        self.closed = True
        p = self.peer
        if p is not None:
            p._reset()

    def env_sendto(self, d, addr):
        p = S.bound.get((rsocket.SOCK_DGRAM, addr))
        if p is not None and not p.closed: p.dg.append((d, self.addr))


class SockModule(types.ModuleType):
    def __getattr__(self, n):
        return getattr(rsocket, n)


def create_connection(addr, timeout=None, source_address=None):
    s = Sock()
    if timeout is not None: s.settimeout(timeout)
    s.connect(addr)
    return s


socket = SockModule("socket")
socket.__dict__.update(socket=Sock, SocketType=Sock, create_connection=create_connection)


# ---------------------------------------------------------------- loading
def load(path, names):
    """imports modules that see the stand-ins"""
    sys.path.insert(0, path)
    new = {"threading": threading, "queue": queue, "socket": socket, "time": time}
    import logging      # keeps the real ones
    old = {k: sys.modules.get(k) for k in new}
    sys.modules.update(new)
    try:
        return [importlib.import_module(n) for n in names]
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v


def watch(cls, names):
    """every access to these attributes of the instances is a scheduling point"""
    for n in names:
        def get(self, n=n):
            point()
            try: return self.__dict__[n]
            except KeyError: raise AttributeError(n)
        def put(self, v, n=n):
            point()
            self.__dict__[n] = v
        setattr(cls, n, property(get, put))

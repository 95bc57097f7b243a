"""C28: the contexts and connections of the Python implementation, under a controlled scheduler"""
import errno, logging, os, socket as rsocket, struct, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
import pyexplore as mc
from pyexplore import pick, choose, check, note, case, state
import pysim
from pysim import S, Sock
context, connection, looper, message = pysim.load(os.path.join(REPO, "python"), ["pomp.context", "pomp.connection", "pomp.looper", "pomp.message"])
logging.disable(logging.CRITICAL)
pysim.watch(context.Context, ["running", "connections", "sock", "semaphore", "mainHandler", "sockThread"])
pysim.watch(connection.Connection, ["running", "peerAddr", "sock", "writeHandler"])
ADDR, ADDR2 = ("127.0.0.1", 5000), ("127.0.0.1", 5001)
SLICES = 32


def raw(msgid, text=b""):
    p = b"\x09" + bytes([len(text) + 1]) + text + b"\0" if text else b""
    return b"POMP" + struct.pack("<II", msgid, 12 + len(p)) + p


class Handler(context.EventHandler):
    """records what is called and checks that it may be called"""
    def __init__(self, name):
        self.name, self.conns, self.gone, self.msgs, self.acts, self.down = name, [], [], [], {}, False
        self.nconn = self.ndisc = 0
        self.tconn, self.tdisc = [], []
        self.most = 16 if name in ("server", "listen") else 1
        self.ctx = None

    def base(self, what):
        note("%6.2f %s %s", S.now, self.name, what)
        check(S.cur is S.threads[0], "%s: %s outside of the loop's thread", self.name, what)
        check(not self.down, "%s: %s after the context was stopped", self.name, what)

    def act(self, what, conn, msg=None):
        a = self.acts.get(what)
        if a:
            a(conn, msg)

    def onConnected(self, ctx, conn):
        self.base("connected")
        check(ctx is self.ctx, "other context")
        check(conn not in self.conns and conn not in self.gone, "%s: connected twice", self.name)
        check(conn in ctx.getConnections(), "%s: a new connection is not listed", self.name)
        self.conns.append(conn); self.nconn += 1
        check(len(self.conns) <= self.most, "%s: %d connections at the same time", self.name, len(self.conns)); self.tconn.append(S.now)
        self.act("connected", conn)

    def onDisconnected(self, ctx, conn):
        self.base("disconnected")
        check(conn in self.conns, "%s: disconnected without being connected, or twice", self.name)
        self.conns.remove(conn); self.gone.append(conn); self.ndisc += 1; self.tdisc.append(S.now)
        self.act("disconnected", conn)

    def recvMessage(self, ctx, conn, msg):
        self.base("message %d" % msg.msgid)
        check(conn in self.conns, "%s: message %d of a connection that is %s", self.name, msg.msgid, "disconnected" if conn in self.gone else "not connected yet")
        self.msgs.append((conn, msg.msgid, msg.buf.getData()))
        self.act("message", conn, msg)


def mk(name):
    h = Handler(name)
    c = context.Context(h); h.ctx = c
    return c, h


def step(t):
    """runs the loop for t seconds"""
    end = S.now + t
    while S.now < end:
        looper.stepLoop(timeout=min(0.25, end - S.now))


def until(cond, t, what):
    end = S.now + t
    while not cond():
        check(S.now < end, "%s did not happen within %.1f s", what, t)
        looper.stepLoop(timeout=0.25)


def stop(c, h):
    note("%6.2f %s stop", S.now, h.name)
    t0 = S.now
    c.stop()
    note("%6.2f %s stopped", S.now, h.name)
    check(S.now - t0 <= 0.5, "stopping takes %.1f s", S.now - t0)
    h.down = True
    check(not h.conns, "%s: stopped with a connection that was not reported as disconnected", h.name)
    check(not c.getConnections() and c.getConnection() is None, "%s: a connection is still listed after stopping", h.name)


def again(h):
    h.down = False


def over():
    """everything is stopped: nothing is left"""
    step(3.0)
    left = [t for t in S.threads[1:] if not t.done]
    check(not left, "a thread is left after stopping: %s", ", ".join(t.name for t in left))
    open_ = [s for s in S.socks if s.lib and not s.closed]
    check(not open_, "%d sockets are left open after stopping (%s)", len(open_), ", ".join("type %d, connected %r, listening %r" % (s.type, s.peeraddr, s.backlog is not None) for s in open_))


class Listener:
    """a server of the environment"""
    def __init__(self, addr=ADDR):
        self.s = Sock.env(); self.s.addr = addr; self.s.backlog = pysim.collections.deque(); S.bound[self.s.type, addr] = self.s
    def conns(self): return list(self.s.backlog)
    def close(self): self.s._close()


def sim(fn, bound, nconf):
    """runs fn(configuration) under every schedule with at most bound deviations"""
    def scen():
        b = bound[1] if mc.THOROUGH else bound[0]
        n = SLICES if b else 1
        k = pick(nconf * n, "configuration, first deviation")
        pysim.reset(b, (k % n, n) if b else None)
        def main():
            looper.prepareLoop()
            fn(k // n)
        pysim.run(main)
        # executions of other slices without any deviation are the same
        state((tuple(t.name for t in S.threads), round(S.now, 3), S.npoint))
    return scen


# ---------------------------------------------------------------- scenarios
CLIENTS = [(p, e, a) for p in (["ok"], [errno.ECONNREFUSED, "ok"], ["timeout", "ok"], ["reset", "ok"], ["slow", "ok"], [errno.ENETUNREACH, errno.EINTR, "ok"]) for e in ("none", "eof", "reset", "late eof") for a in ("none", "send", "disconnect", "stop")]


def alive(s):
    """keep alive is on, with a limit of some seconds"""
    g = lambda l, o: s.opts.get((l, o), 0)
    check(g(rsocket.SOL_SOCKET, rsocket.SO_KEEPALIVE) == 1 and (g(rsocket.IPPROTO_TCP, rsocket.TCP_KEEPIDLE), g(rsocket.IPPROTO_TCP, rsocket.TCP_KEEPINTVL), g(rsocket.IPPROTO_TCP, rsocket.TCP_KEEPCNT)) == (5, 1, 2), "keep alive of a connection is not set")


def client(k):
    """a client and a server of the environment"""
    pol, end, act = CLIENTS[k]
    note("policy %s, end %s, action %s", pol, end, act)
    S.policy[:] = pol
    l = Listener()
    c, h = mk("client")
    stopped = []
    def onmsg(conn, msg):
        if len(h.msgs) != 2: return
        if act == "send": conn.send(77, None)
        elif act == "disconnect": conn.disconnect()
        elif act == "stop": stopped.append(1); stop(c, h)
    h.acts["message"] = onmsg
    h.acts["connected"] = lambda conn, m: conn.send(70 + h.nconn, None)
    c.connect(rsocket.AF_INET, ADDR)
    bad = sum(p != "ok" and p != "slow" for p in pol)
    until(lambda: h.conns or (h.ndisc and pol[0] == "reset"), 3.5 * (bad + 1), "connecting")
    until(lambda: h.conns, 3.5, "connecting again")
    peer = l.conns()[-1]
    conn = h.conns[0]
    check(c.getConnection() is conn and c.getConnections() == [conn], "the connection is not listed")
    check(conn.getPeerAddr() == (rsocket.AF_INET, ADDR), "other peer address: %r", conn.getPeerAddr())
    alive(peer.peer)
    data = raw(1, b"a") + raw(2, b"bc") + raw(3)
    peer.env_send(data[:20]); S.seq += 1
    pysim.at(0.1 if end != "late eof" else 3.2, lambda: (peer.env_send(data[20:]), peer.env_eof() if "eof" in end else peer.env_reset() if end == "reset" else None))
    n0 = len(S.sent)
    if end == "none" and act in ("none", "send"):
        until(lambda: len(h.msgs) >= 3, 2.0, "reception")
        step(0.5)
        check(h.conns == [conn] and h.ndisc == h.nconn - 1, "the connection does not last")
        got = bytes(peer.rx)
        want = raw(70 + h.nconn) + (raw(77) if act == "send" else b"")
        check(got == want, "the peer receives %r instead of %r", got, want)
        check(not peer.rxeof, "the connection is closed")
    else:
        until(lambda: conn in h.gone or stopped, 5.0, "disconnection")
    mine = [(i, d) for x, i, d in h.msgs if x is conn]
    want = [(1, raw(1, b"a")), (2, raw(2, b"bc")), (3, raw(3))]
    check(mine == want[:len(mine)], "received %r instead of %r", mine, want)
    if act in ("none", "send"): check(len(mine) == 3, "only %d of 3 messages were received", len(mine))
    if not stopped and conn in h.gone:
        t = h.tdisc[-1]
        until(lambda: h.conns, 4.0, "connecting again after a disconnection")
        a = [x[0] for x in S.sent[n0:]]
        check(a and 1.5 <= a[0] - t <= 2.2, "the client connects again %.2f s after the disconnection", (a or [99])[0] - t)
    if not stopped:
        n = h.nconn, h.ndisc
        step(4.5)
        check((h.nconn, h.ndisc) == n and len([x for x in S.sent if x[0] > S.now - 4.5]) == 0, "the client connects again although it is connected")
        stop(c, h)
    l.close()
    over()


def early(k):
    """stopping right after starting"""
    sockets(EARLY[k])


def sockets(k):
    """stopping at any moment; then the context is used again"""
    kind, when, pol, twice = STOPS[k]
    note("%s, stopped after %s, policy %s", kind, when, pol)
    S.policy[:] = pol
    l = Listener() if kind == "connect" else None
    c, h = mk(kind)
    h.acts["connected"] = lambda conn, m: conn.send(9, None) if kind != "bind" else None
    getattr(c, kind)(rsocket.AF_INET, ADDR)
    live = [True]
    if kind == "listen":
        # clients that connect as soon as they can
        p = [Sock.env() for _ in range(2)]
        for i, x in enumerate(p):
            def go(x=x, n=[0]):
                if not live[0]: return
                if x.env_connect(ADDR): x.env_send(raw(5) + raw(6))
                elif n[0] < 5: n[0] += 1; pysim.at(0.05, go)
            pysim.at(0.01 + 0.02 * i, go)
    elif kind == "bind":
        p = Sock.env(rsocket.SOCK_DGRAM); p.addr = ADDR2; S.bound[p.type, ADDR2] = p
        for i in range(2): pysim.at(0.02 + 0.02 * i, lambda i=i: live[0] and p.env_sendto(raw(20 + i), ADDR))
    else:
        def go(n=[0]):
            b = l.conns()
            if not live[0]: return
            if b: b[-1].env_send(raw(5) + raw(6))
            elif n[0] < 20: n[0] += 1; pysim.at(0.05, go)
        pysim.at(0.02, go)
    if when is None: pass
    elif when == "sleep": pysim.sleep(0.3)
    else: step(when)
    stop(c, h)
    live[0] = False
    if l: l.close()
    S.policy[:] = []
    if twice:
        again(h)
        l = Listener() if kind == "connect" else None
        n, d, m = h.nconn, h.ndisc, len(h.msgs)
        getattr(c, kind)(rsocket.AF_INET, ADDR)
        if kind == "listen":
            x = Sock.env(); until(lambda: x.env_connect(ADDR), 3.0, "listening again"); x.env_send(raw(31))
        elif kind == "bind":
            until(lambda: h.conns, 3.0, "binding again"); p.env_sendto(raw(31), ADDR)
        else:
            until(lambda: h.conns, 3.0, "connecting again"); l.conns()[-1].env_send(raw(31))
        until(lambda: len(h.msgs) > m, 3.0, "reception after starting again")
        check(h.msgs[m][1] == 31 and len(h.msgs) == m + 1 and h.nconn == n + 1 and h.ndisc == d, "other events after starting again: %d connections, %d disconnections, messages %r", h.nconn - n, h.ndisc - d, [x[1] for x in h.msgs[m:]])
        stop(c, h)
        if l: l.close()
    over()


STOPS = [(kind, w, pol, t) for kind in ("connect", "listen", "bind") for w in (None, 0.02, 0.05, 0.5, "sleep", 2.2) for pol in ([], [errno.ECONNREFUSED], ["timeout"], ["reset"]) for t in (False, True) if kind == "connect" or not pol]


EARLY = [i for i, x in enumerate(STOPS) if x[1] is None and not x[3]]


def server(k):
    """a server and clients of the environment"""
    n, bad, act = SERVERS[k]
    note("%d clients, %s, %s", n, bad, act)
    c, h = mk("server")
    def onmsg(conn, msg):
        if msg.msgid == 1:
            if act == "echo": conn.send(8, "%s", "x")
            elif act == "disconnect": conn.disconnect()
            elif act == "broadcast": c.send(8, "%s", "x")
    h.acts["message"] = onmsg
    if bad == "bind": S.bindpolicy[:] = [errno.EADDRNOTAVAIL, errno.EADDRINUSE]
    c.listen(rsocket.AF_INET, ADDR)
    cl = [Sock.env() for _ in range(n)]
    until(lambda: cl[0].env_connect(ADDR), 8.0, "listening")
    early = None
    if bad == "early":          # gone before it is accepted
        early = Sock.env(); early.env_connect(ADDR); early.env_reset()
    for x in cl[1:]: check(x.env_connect(ADDR), "the server does not listen any more")
    for i, x in enumerate(cl): x.env_send(raw(1, b"ab")); pysim.at(0.05 + i * 0.01, lambda x=x: x.env_send(raw(2)))
    if bad == "close": pysim.at(0.03, cl[0].env_eof)
    if bad == "reset": pysim.at(0.2, cl[0].env_reset)
    until(lambda: h.nconn >= n, 4.0, "connection of %d clients" % n)
    step(0.6)
    peers = {x.getPeerAddr()[1]: x for x in h.conns + h.gone}
    for i, x in enumerate(cl):
        cn = peers.get(x.addr)
        check(cn is not None, "client %d is not connected", i)
        got = [m for y, m, d in h.msgs if y is cn]
        if act == "disconnect" or (i == 0 and bad == "close"): check(got[:1] == [1] and got in ([1], [1, 2]), "client %d: messages %r received", i, got)
        else: check(got == [1, 2], "client %d: messages %r received", i, got)
        alive(x.peer)
        live = not (act == "disconnect" or (i == 0 and bad in ("close", "reset")))
        check((cn in h.conns) == live and (cn in c.getConnections()) == live, "client %d: %s", i, "disconnected" if live else "still connected")
        if live:
            k8 = {"echo": 1, "none": 0}.get(act)
            data = bytes(x.rx)
            one = raw(8, b"x")
            check(data == one * (len(data) // len(one)) and (k8 is None or data == one * k8), "client %d receives %r", i, data)
            if act == "broadcast": check(len(data) >= len(one), "client %d receives no broadcast", i)
    # whatever happened, another client is served
    x = Sock.env(); m = len(h.msgs)
    until(lambda: x.env_connect(ADDR), 4.0, "listening at the end")
    x.env_send(raw(99))
    until(lambda: any(y[1] == 99 for y in h.msgs[m:]), 4.0, "service of another client")
    stop(c, h)
    over()


SERVERS = [(n, b, a) for n in (1, 2) for b in ("none", "early", "close", "reset", "bind") for a in ("none", "echo", "disconnect", "broadcast")]


def many(k):
    """more clients than the server takes at a time"""
    c, h = mk("server")
    if k == 2:      # some connections fail before, some are gone before they are accepted
        S.acceptpolicy[:] = [errno.ECONNABORTED, errno.EMFILE, errno.ECONNABORTED]
    c.listen(rsocket.AF_INET, ADDR)
    cl = [Sock.env() for _ in range(20)]
    until(lambda: cl[0].env_connect(ADDR), 3.0, "listening")
    if k == 2:
        for i in range(3): x = Sock.env(); x.env_connect(ADDR); x.env_reset(); step(0.1)
    for x in cl[1:]: until(lambda: x.env_connect(ADDR), 4.0, "listening")
    until(lambda: h.nconn >= 16, 3.0, "connection of 16 clients")
    step(0.5)
    check(h.nconn == 16, "%d clients connected", h.nconn)
    if k != 1:      # when some of them go the others get their place
        for i in (3, 7, 8): cl[i].env_eof()
        gone = [x for x in h.conns if x.getPeerAddr()[1] == cl[5].addr]; gone[0].disconnect(); cl[5].env_eof()
        until(lambda: h.nconn >= 20 and h.ndisc == 4, 3.0, "connection of the last clients")
        cl[17].env_send(raw(5))
        until(lambda: len(h.msgs) == 1, 2.0, "reception")
        y = [Sock.env() for _ in range(3)]
        for x in y: x.env_connect(ADDR)
        step(0.3)
        check(h.nconn == 20, "%d clients connected", h.nconn - 4)
        c.send(6, None); step(0.3)
        for i, x in enumerate(cl): check(i in (3, 5, 7, 8) or bytes(x.rx) == raw(6), "client %d receives %r", i, bytes(x.rx))
    stop(c, h)
    over()


PAIRS = [(a, b, o) for a in ("none", "pingpong", "cdisc", "sdisc", "burst") for b in (0, 1) for o in (0, 1)]


def pair(k):
    """both ends are real"""
    act, who, order = PAIRS[k]
    note("%s, %d stops first, start order %d", act, who, order)
    s, hs = mk("server"); c, hc = mk("client")
    def st(x):
        if x: s.listen(rsocket.AF_INET, ADDR)
        else: c.connect(rsocket.AF_INET, ADDR)
    st(order)
    if order == 0: step(0.1)
    st(1 - order)
    hc.acts["connected"] = lambda conn, m: [conn.send(1, "%u", 0)] + ([conn.send(2, "%u", i) for i in range(3)] if act == "burst" else [])
    def onserver(conn, msg):
        if act == "pingpong" and msg.msgid == 1: conn.send(3, "%u", 1)
        elif act == "burst" and msg.msgid == 2: s.send(4, "%u", 2)
        elif act == "sdisc" and hs.nconn == 1: conn.disconnect()
    def onclient(conn, msg):
        if act == "pingpong" and msg.msgid == 3 and len(hc.msgs) < 3: conn.send(1, "%u", 0)
    hs.acts["message"], hc.acts["message"] = onserver, onclient
    if act == "cdisc": hc.acts["connected"] = lambda conn, m: conn.disconnect() if hc.nconn == 1 else conn.send(1, "%u", 0)
    n = 2 if act in ("cdisc", "sdisc") else 1
    until(lambda: hc.nconn >= n and hs.nconn >= n and len(hc.conns) == len(hs.conns) == 1, 7.0, "connection")
    step(1.0)
    ids = lambda h: [m for x, m, d in h.msgs if x in h.conns]
    want = {"none": ([1], []), "pingpong": ([1, 1, 1], [3, 3, 3]), "cdisc": ([1], []), "sdisc": ([1], []), "burst": ([1, 2, 2, 2], [4, 4, 4])}[act]
    check(ids(hs) == want[0] and ids(hc) == want[1], "the server receives %r, the client %r instead of %r", ids(hs), ids(hc), want)
    if act == "burst": check([message.Message and d for x, m, d in hs.msgs if m == 2] == [b"POMP" + struct.pack("<II", 2, 14) + b"\x06" + bytes([i]) for i in range(3)], "messages are changed or exchanged")
    if who:
        stop(s, hs)
        until(lambda: not hc.conns, 3.0, "disconnection of the client")
        stop(c, hc)
    else:
        stop(c, hc)
        until(lambda: not hs.conns, 3.0, "disconnection of the server")
        stop(s, hs)
    over()


DGRAMS = [(o, r, b) for o in (0, 1, 2) for r in ("reply", "to", "none") for b in ("ok", "late")]


def dgram(k):
    """datagrams of two peers, each answered"""
    order, reply, b = DGRAMS[k]
    note("order %d, %s, bind %s", order, reply, b)
    if b == "late": S.bindpolicy[:] = [errno.EADDRNOTAVAIL]
    c, h = mk("dgram")
    P = []
    for i in range(2):
        p = Sock.env(rsocket.SOCK_DGRAM); p.addr = ("127.0.0.1", 6000 + i); S.bound[p.type, p.addr] = p; P.append(p)
    def onmsg(conn, msg):
        i = msg.msgid // 10 - 1
        if reply == "reply": conn.send(100 + msg.msgid, None)
        elif reply == "to":
            m = message.Message(); m.write(100 + msg.msgid, None); conn.sendMsgTo(m, P[i].addr)
    h.acts["message"] = onmsg
    c.bind(rsocket.AF_INET, ADDR)
    until(lambda: h.conns, 5.0, "binding")
    seq = [[(0, 10), (1, 20), (0, 11), (1, 21)], [(0, 10), (0, 11), (1, 20), (0, 12)], [(1, 20), (0, 10)]][order]
    P[1].env_sendto(b"", ADDR)
    for j, (i, m) in enumerate(seq): pysim.at(0.001 * (j // 2), lambda i=i, m=m: P[i].env_sendto(raw(m), ADDR))
    until(lambda: len(h.msgs) >= len(seq), 3.0, "reception")
    step(0.3)
    check([m for x, m, d in h.msgs] == [m for i, m in seq], "received %r instead of %r", [m for x, m, d in h.msgs], seq)
    check(h.nconn == 1 and h.ndisc == 0, "the socket is opened %d times and closed %d times", h.nconn, h.ndisc)
    for i in range(2):
        got = [d for d, a in P[i].dg]; want = [raw(100 + m) for j, m in seq if j == i] if reply != "none" else []
        check(got == want, "peer %d receives the answers %r instead of %r", i, [struct.unpack("<I", x[4:8])[0] for x in got], [struct.unpack("<I", x[4:8])[0] for x in want])
        check(all(a == ADDR for d, a in P[i].dg), "answer from another address")
    stop(c, h)
    over()


FULLS = [(n, e, o) for n in (1, 2) for e in ("stop", "disconnect", "eof", "reset", "release") for o in (0, 1)]


def full(k):
    """a client that does not read for a while, or at all"""
    n, end, own = FULLS[k]
    note("%d clients, %s, sent %s", n, end, "by the handler" if own else "outside")
    c, h = mk("server")
    c.listen(rsocket.AF_INET, ADDR)
    cl = [Sock.env() for _ in range(n)]
    until(lambda: cl[0].env_connect(ADDR), 3.0, "listening")
    for x in cl[1:]: x.env_connect(ADDR)
    until(lambda: h.nconn >= n, 3.0, "connection of %d clients" % n)
    slow = cl[0].peer; slow.full = True
    def burst():
        for i in range(3): c.send(40 + i, "%u", i)
    h.acts["message"] = lambda conn, m: burst() if m.msgid == 1 else None
    if own: cl[-1].env_send(raw(1))
    else: burst()
    want = b"".join(b"POMP" + struct.pack("<II", 40 + i, 14) + b"\x06" + bytes([i]) for i in range(3))
    step(0.5)
    check(not cl[0].rx, "data for a client that takes none")
    if n == 2: check(bytes(cl[1].rx) == want, "a client that does not read keeps another one from its messages: %r", bytes(cl[1].rx))
    conn = [x for x in h.conns if x.getPeerAddr()[1] == cl[0].addr][0]
    if end == "release":
        slow.full = False; step(0.5)
        check(bytes(cl[0].rx) == want, "the client receives %r instead of %r", bytes(cl[0].rx), want)
    elif end != "stop":
        if end == "disconnect": conn.disconnect()
        elif end == "eof": cl[0].env_close()
        else: cl[0].env_reset()
        until(lambda: conn in h.gone, 3.0, "disconnection")
    cl[-1].env_send(raw(2)) if n == 2 else None
    if n == 2: until(lambda: h.msgs and h.msgs[-1][1] == 2, 2.0, "reception from the other client")
    stop(c, h)
    over()


def loops(k):
    """requests posted to a loop by several threads"""
    got = []
    hd = looper.Handler(lambda r: (check(S.cur is S.threads[0], "a request is processed outside of the loop's thread"), got.append(r)))
    th = []
    for i in range(2 + k):
        t = pysim.Thread(target=lambda i=i: [hd.post((i, j)) for j in range(3)], name="poster%d" % i); th.append(t); t.start()
    hd.post((9, 0))
    until(lambda: len(got) >= 3 * len(th) + 1, 3.0, "processing of all requests")
    for t in th: t.join()
    step(0.5)
    check(sorted(got) == sorted([(i, j) for i in range(len(th)) for j in range(3)] + [(9, 0)]), "requests are lost or repeated: %r", got)
    for i in range(len(th)): check([j for a, j in got if a == i] == [0, 1, 2], "requests of a thread are processed in another order: %r", got)


# ---------------------------------------------------------------- stand-ins against real sockets
def attempt(f):
    try: return f()
    except rsocket.timeout: return "timeout"
    except OSError as e: return errno.errorcode[e.errno]


STREAMOPS = ("recv", "send", "shutdown", "peername", "B send", "B eof", "B reset")
LISTENOPS = ("accept", "shutdown", "B connect", "B connect reset", "close")
DGRAMOPS = ("recv", "send", "shutdown", "B send", "B empty")


def onstream(seq, mod, wait):
    """results of operations on a connection; mod is the real socket module or the stand-in"""
    real = mod is rsocket
    l = mod.socket(mod.AF_INET, mod.SOCK_STREAM); l.bind(("127.0.0.1", 0)); l.listen(1)
    a = mod.socket(mod.AF_INET, mod.SOCK_STREAM); a.connect(l.getsockname())
    b, x = l.accept()
    l.close()
    a.settimeout(wait)
    out, bopen = [], True
    for op in seq:
        if op == "recv": out.append(attempt(lambda: a.recv(100)))
        elif op == "send": out.append(attempt(lambda: a.sendall(b"x")))
        elif op == "shutdown": out.append(attempt(lambda: a.shutdown(mod.SHUT_RDWR)))
        elif op == "peername": out.append(attempt(lambda: a.getpeername() and 1))
        elif op == "B send": out.append(attempt(lambda: (b.sendall if real else b._send)(b"yz")))
        elif op == "B eof": attempt(lambda: b.shutdown(mod.SHUT_WR)) if real else b.env_eof()
        elif op == "B reset":
            bopen = False
            if real: b.setsockopt(mod.SOL_SOCKET, mod.SO_LINGER, struct.pack("ii", 1, 0)); b.close()
            else: b.env_reset()
        if real and wait > 0.01: import time; time.sleep(wait / 4)
    if bopen:
        b.settimeout(wait)
        out.append(attempt(lambda: b.recv(100)))
        b.close()
    a.close()
    return out


def onlisten(seq, mod, wait):
    real = mod is rsocket
    l = mod.socket(mod.AF_INET, mod.SOCK_STREAM); l.bind(("127.0.0.1", 0)); addr = l.getsockname(); l.listen(5)
    l.settimeout(wait)
    out, closed, keep = [], False, []
    for op in seq:
        if op == "accept":
            r = attempt(l.accept)
            if not isinstance(r, str):
                keep.append(r[0]); r[0].settimeout(wait)
                r = ("accepted", attempt(lambda: r[0].getpeername() and 1), attempt(lambda: r[0].recv(10)))
            out.append(r)
        elif op == "shutdown": out.append(attempt(lambda: l.shutdown(mod.SHUT_RDWR)))
        elif op == "close": l.close()
        else:
            if real: c = mod.socket(mod.AF_INET, mod.SOCK_STREAM); r = attempt(lambda: c.connect(addr))
            else: c = Sock.env(); r = None if c.env_connect(addr) else "ECONNREFUSED"
            out.append(r)
            if op == "B connect": keep.append(c)
            elif real:
                if r is None: c.setsockopt(mod.SOL_SOCKET, mod.SO_LINGER, struct.pack("ii", 1, 0))
                c.close()
            elif r is None: c.env_reset()
        if real and wait > 0.01: import time; time.sleep(wait / 4)
    for x in keep + [l]: x.close()
    return out


def ondgram(seq, mod, wait):
    real = mod is rsocket
    a, b = [mod.socket(mod.AF_INET, mod.SOCK_DGRAM) for i in range(2)]
    for x in (a, b): x.bind(("127.0.0.1", 0)); x.settimeout(wait)
    A, B = a.getsockname(), b.getsockname()
    out = []
    for op in seq:
        if op == "recv":
            r = attempt(lambda: a.recvfrom(100))
            out.append((r[0], r[1] == B) if isinstance(r, tuple) else r)
        elif op == "send": out.append(attempt(lambda: a.sendto(b"pq", B)))
        elif op == "shutdown": out.append(attempt(lambda: a.shutdown(mod.SHUT_RDWR)))
        else: b.sendto(b"yz" if op == "B send" else b"", A)
        if real and wait > 0.01: import time; time.sleep(wait / 4)
    out.append(attempt(lambda: b.recvfrom(100)[0]))
    a.close(); b.close()
    return out


def onblocked(seq, mod, wait):
    """a thread blocked in an operation and what ends it"""
    kind, wake = seq
    real = mod is rsocket
    if real: import threading as th, time as tm
    else: th, tm = pysim.threading, pysim.time
    keep = []
    if kind == "recvfrom":
        a, b = [mod.socket(mod.AF_INET, mod.SOCK_DGRAM) for i in range(2)]
        for x in (a, b): x.bind(("127.0.0.1", 0))
        f, data = (lambda: a.recvfrom(100)[0]), (lambda: b.sendto(b"yz", a.getsockname()))
    else:
        a = mod.socket(mod.AF_INET, mod.SOCK_STREAM); a.bind(("127.0.0.1", 0)); a.listen(1)
        b = mod.socket(mod.AF_INET, mod.SOCK_STREAM)
        if kind == "accept": f, data = (lambda: bool(keep.append(a.accept()[0]))), (lambda: b.connect(a.getsockname()))
        else:
            b.connect(a.getsockname()); keep.append(a); a = a.accept()[0]
            f, data = (lambda: a.recv(100)), (lambda: b.sendall(b"yz"))
            if kind == "send":
                if not real: a.full = True
                f = lambda: a.sendall(b"x" * (32 << 20 if real else 1))
    out = []
    t = th.Thread(target=lambda: out.append(attempt(f))); t.start()
    tm.sleep(wait)
    out.append(t.is_alive())
    if wake == "shutdown": attempt(lambda: a.shutdown(mod.SHUT_RDWR))
    elif wake == "data": data()
    elif wake == "eof": b.close()
    elif wake == "reset":
        if real: b.setsockopt(mod.SOL_SOCKET, mod.SO_LINGER, struct.pack("ii", 1, 0)); b.close()
        else: b.env_reset()
    t.join(1.0 if wake == "data" and kind == "send" else 2.0)
    out.append(t.is_alive())
    if t.is_alive():
        attempt(lambda: a.shutdown(mod.SHUT_RDWR)); t.join()
    for x in keep + [a, b]: x.close()
    return out


BLOCKED = [(k, w) for k in ("recv", "accept", "recvfrom") for w in ("shutdown", "data", "eof")[:3 if k == "recv" else 2]] + [("send", "shutdown"), ("send", "data"), ("send", "reset")]
CONF = [(f, i) for f, ops in ((onstream, STREAMOPS), (onlisten, LISTENOPS), (ondgram, DGRAMOPS), (onblocked, BLOCKED)) for i in range(len(ops))]


def conf(k):
    """every short sequence of operations gives the same results with real sockets as with the stand-ins"""
    import itertools
    f, i = CONF[k]
    ops = {onstream: STREAMOPS, onlisten: LISTENOPS, ondgram: DGRAMOPS, onblocked: BLOCKED}[f]
    n = 5 if mc.THOROUGH else 4
    for length in range(n):
        for t in itertools.product(ops, repeat=length):
            seq = (ops[i],) + t
            if f is onblocked:
                if length: break
                seq = ops[i]
            # the other end has one end of life, a closed socket is not used
            e = [j for j, o in enumerate(seq) if o in ("B eof", "B reset", "close")]
            if e and any(o.startswith("B ") or seq[e[0]] == "close" for o in seq[e[0] + 1:]): continue
            case()
            want = f(seq, pysim.socket, 0.01)
            for wait in (0.002, 0.02, 0.2, 1.0):
                got = f(seq, rsocket, wait)
                if got == want: break
            mc.stat("conformance_traces")
            if got != want:     # an error of the stand-ins, not of the code under test
                mc.stat("conformance_mismatches")
                note("real sockets give %r, the stand-ins %r for %r", got, want, seq)
            check(got == want or not os.environ.get("MC_STRICT"), "real sockets give %r, the stand-ins %r for %r", got, want, seq)


mc.SCEN += [("client", sim(client, (1, 2), len(CLIENTS)), False), ("stop", sim(sockets, (1, 2), len(STOPS)), False), ("early", sim(early, (3, 4), len(EARLY)), False), ("server", sim(server, (1, 2), len(SERVERS)), False),
            ("many", sim(many, (0, 1), 3), False), ("pair", sim(pair, (1, 2), len(PAIRS)), False), ("dgram", sim(dgram, (1, 3), len(DGRAMS)), False), ("full", sim(full, (1, 2), len(FULLS)), False), ("loops", sim(loops, (2, 3), 2), False), ("conf", sim(conf, (0, 0), len(CONF)), False)]
if __name__ == "__main__":
    os.sched_setaffinity
    mc.main("C28", "The real Python modules run with stand-ins for threads, time and sockets; every schedule with at most the given number of deviations from the default one is executed, for every configuration of the scenario. States are positions in the tree of choices.")

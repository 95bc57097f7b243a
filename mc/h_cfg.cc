/* C25: set up of sockets, and what connections say about themselves */
#include "session.h"
#include <netinet/tcp.h>
using namespace mc; using namespace ses; using simk::cfg;

namespace {
static const int NFD = 120;
struct Keep { int enable = 1, idle = 5, interval = 1, count = 2; };
struct Info { Addr local, peer; bool cred; int pid, uid, gid; };
struct CF {
	World w; Ctx *x = nullptr; Keep keep; bool scb = false;
	std::map<struct pomp_conn *, Info> info;
	std::function<void(struct pomp_conn *)> expect;   /* fills in info for a new connection */
	int ncon = 0, ndis = 0, nmsg = 0;
	Addr bound;   /* the local address of the context, empty if it has none */
	uint32_t id = 1;
};
CF *F;

int opt(Sock *s, int lv, int name, int none = -1) { auto it = s->opts.find({lv, name}); if (it == s->opts.end()) return none; int v = 0; memcpy(&v, it->second.data(), std::min<size_t>(4, it->second.size())); return v; }
bool unixaddr(const Addr &a) { return !a.empty() && ((const sockaddr *)a.data())->sa_family == AF_UNIX; }

/* every descriptor of the library is close-on-exec; sockets never block */
void fds_ok(const char *when)
{
	for (int fd = 0; fd < NFD; fd++) if (simk::file_of(fd) && simk::fd_is_lib(fd)) {
		MC_CHECK(simk::fd_cloexec(fd), "%s descriptor %d is not close-on-exec", when, fd);
		if (simk::sock_of(fd)) MC_CHECK(simk::file_of(fd)->flags & O_NONBLOCK, "%s socket %d can block", when, fd);
	}
}
int fd_of(Sock *s) { for (int fd = 0; fd < NFD; fd++) if (simk::sock_of(fd) == s) return fd; return -1; }
void ready(Sock *s, const char *what)
{
	int fd = fd_of(s);
	MC_CHECK(simk::fd_cloexec(fd), "%s of socket %d, which is not close-on-exec", what, fd);
	MC_CHECK(s->flags & O_NONBLOCK, "%s of socket %d, which can block", what, fd);
}
/* the keep-alive settings of a connection are those of the time it was made */
void keepalive_is(Sock *s, const Keep &k, const char *what)
{
	if (s->domain == AF_UNIX) { MC_CHECK(s->opts.empty() || opt(s, SOL_SOCKET, SO_KEEPALIVE) <= 0, "%s: keep-alive on a unix socket", what); return; }
	int on = opt(s, SOL_SOCKET, SO_KEEPALIVE, 0);
	MC_CHECK(!!on == !!k.enable, "%s: keep-alive is %d instead of %d", what, on, k.enable);
	if (!k.enable) return;
	MC_CHECK(opt(s, SOL_TCP, TCP_KEEPIDLE) == k.idle, "%s: keep-alive idle time is %d instead of %d", what, opt(s, SOL_TCP, TCP_KEEPIDLE), k.idle);
	MC_CHECK(opt(s, SOL_TCP, TCP_KEEPINTVL) == k.interval, "%s: keep-alive interval is %d instead of %d", what, opt(s, SOL_TCP, TCP_KEEPINTVL), k.interval);
	MC_CHECK(opt(s, SOL_TCP, TCP_KEEPCNT) == k.count, "%s: keep-alive count is %d instead of %d", what, opt(s, SOL_TCP, TCP_KEEPCNT), k.count);
}
void info_is(struct pomp_conn *c, const Info &i, const char *when)
{
	uint32_t len = 0; const sockaddr *p = pomp_conn_get_local_addr(c, &len);
	Addr a = p ? Addr((const char *)p, len) : Addr();
	MC_CHECK(a == i.local, "%s: local address %s instead of %s", when, ref::hexs(a), ref::hexs(i.local));
	len = 0; p = pomp_conn_get_peer_addr(c, &len); a = p ? Addr((const char *)p, len) : Addr();
	MC_CHECK(a == i.peer, "%s: peer address %s instead of %s", when, ref::hexs(a), ref::hexs(i.peer));
	const struct pomp_cred *k = pomp_conn_get_peer_cred(c);
	MC_CHECK(!!k == i.cred, "%s: %s peer credentials", when, k ? "there are" : "no");
	if (k) MC_CHECK((int)k->pid == i.pid && (int)k->uid == i.uid && (int)k->gid == i.gid, "%s: peer credentials are %d/%d/%d instead of %d/%d/%d", when, (int)k->pid, (int)k->uid, (int)k->gid, i.pid, i.uid, i.gid);
}
void infos(const char *when) { for (auto &k : F->info) info_is(k.first, k.second, when); }
void ctx_is(const char *when)
{
	uint32_t len = 12345; const sockaddr *p = pomp_ctx_get_local_addr(F->x->p, &len);
	if (F->x->type == CLIENT) { if (strcmp(when, "not started") && strcmp(when, "stopped")) MC_CHECK(!p, "%s: a client has a local address", when); return; }
	Addr a = p && len != 12345 ? Addr((const char *)p, len) : Addr();
	MC_CHECK(a == F->bound, "%s: the context's local address is %s instead of %s", when, ref::hexs(a), ref::hexs(F->bound));
}
void evt(struct pomp_ctx *p, enum pomp_event ev, struct pomp_conn *c, const struct pomp_msg *m, void *ud)
{
	(void)p; (void)ud; (void)m;
	if (ev == POMP_EVENT_CONNECTED) {
		F->ncon++; note("    connected"); F->expect(c);
		Sock *s = simk::sock_of(pomp_conn_get_fd(c)); MC_CHECK(s, "a connection without a socket");
		ready(s, "connection");
		keepalive_is(s, F->keep, "connection");
		info_is(c, F->info[c], "connected");
	} else if (ev == POMP_EVENT_DISCONNECTED) { F->ndis++; note("    disconnected"); MC_CHECK(F->info.count(c), "disconnected twice"); info_is(c, F->info[c], "disconnected"); F->info.erase(c); }
	else { F->nmsg++; note("    message"); if (F->x->type != DGRAM) { info_is(c, F->info[c], "message"); keepalive_is(simk::sock_of(pomp_conn_get_fd(c)), F->keep, "message"); } }
}
void raw(struct pomp_ctx *p, struct pomp_conn *c, struct pomp_buffer *, void *) { evt(p, POMP_EVENT_MSG, c, nullptr, nullptr); }
void sock(struct pomp_ctx *, int fd, enum pomp_socket_kind kind, void *)
{
	Sock *s = simk::sock_of(fd);
	note("    socket callback %d %s", fd, pomp_socket_kind_str(kind));
	MC_CHECK(s, "socket callback with descriptor %d", fd);
	simk::events.push_back({"callback", fd, (int)kind, now()});
	if (kind == POMP_SOCKET_KIND_PEER) MC_CHECK(s->st == Sock::CONNECTED && !s->nreadcalls && !s->nwritten, "the socket is already in use");
	else MC_CHECK(s->st == Sock::NEW && s->local.empty() && s->remote.empty(), "the socket is already bound or connected");
}
/* one callback for each socket, with its kind, right after it came into being */
void callbacks(bool any, Type t)
{
	std::map<int, int> open;      /* descriptor -> callbacks so far */
	for (auto &e : simk::events) {
		if (e.what == "socket" || e.what == "accept") { open[e.fd] = e.what == "accept" ? 100 : 0; }
		else if (e.what == "callback") {
			MC_CHECK(open.count(e.fd), "callback for a socket the library did not open");
			int want = open[e.fd] >= 100 ? POMP_SOCKET_KIND_PEER : t == SERVER ? POMP_SOCKET_KIND_SERVER : t == CLIENT ? POMP_SOCKET_KIND_CLIENT : POMP_SOCKET_KIND_DGRAM;
			MC_CHECK(e.a == want, "socket callback of kind %d instead of %d", e.a, want);
			MC_CHECK(open[e.fd] % 100 == 0, "two callbacks for one socket"); open[e.fd]++;
		} else if (e.what == "bind" || e.what == "listen" || e.what == "connect") { if (any) MC_CHECK(open[e.fd] % 100 == 1, "%s before the socket callback", e.what.c_str()); }
		else if (e.what == "close" && open.count(e.fd)) { if (any) MC_CHECK(open[e.fd] % 100 == 1, "no callback for a socket"); open.erase(e.fd); }
	}
	for (auto &k : open) if (any) MC_CHECK(k.second % 100 == 1, "no callback for socket %d", k.first);
}
Addr cut(Addr a) { return unixaddr(a) && a.size() > 3 && a[2] && a.back() == 0 ? a.substr(0, a.size() - 1) : a; }
struct Fam { const char *name; Addr addr, addr2, given; };
Fam fam(int i)
{
	switch (i) {
	case 0: return { "inet", simk::in4(INADDR_LOOPBACK, 5000), simk::in4(INADDR_LOOPBACK, 6001), simk::in4(INADDR_LOOPBACK, 5000) };
	case 1: return { "inet6", simk::in6(5000), simk::in6(6001), simk::in6(5000) };
	case 2: return { "unix path", simk::un("/tmp/mc.sock"), simk::un("/tmp/client.sock"), simk::un("/tmp/mc.sock") };
	case 3: return { "unix path, not terminated", simk::un("/tmp/mc.sock"), simk::un("/tmp/client.sock"), cut(simk::un("/tmp/mc.sock")) };
	default: return { "abstract", simk::un("@mc"), simk::un("@client"), simk::un("@mc") };
	}
}
void keep_set(const Keep &k) { F->keep = k; MC_CHECK(pomp_ctx_setup_keepalive(F->x->p, k.enable, k.idle, k.interval, k.count) == 0, "pomp_ctx_setup_keepalive failed"); }
static const Keep KEEPS[] = { {}, {0, 5, 1, 2}, {1, 11, 7, 9} };

/* the address as it is given: exactly so long */
int start(Type t, const Addr &a, unsigned mode, bool withmode)
{
	char *p = (char *)malloc(a.size()); memcpy(p, a.data(), a.size());
	const sockaddr *s = (const sockaddr *)p;
	int r = t == SERVER ? (withmode ? pomp_ctx_listen_with_access_mode(F->x->p, s, a.size(), mode) : pomp_ctx_listen(F->x->p, s, a.size())) : t == CLIENT ? pomp_ctx_connect(F->x->p, s, a.size()) : pomp_ctx_bind(F->x->p, s, a.size());
	free(p);
	note("  start = %d", r);
	return r;
}
void setup(CF &f, Type t, int conf, bool israw, bool scb, int k)
{
	F = &f; f.w.poll = conf & 1; begin(f.w);
	if (conf & 2) { pomp_evt_set_ops(f.w.poll ? &pomp_evt_fd_ops : &pomp_evt_posix_ops); pomp_internal_set_timer_impl(POMP_TIMER_IMPL_POSIX); }
	mkloop();
	f.w.ctxs.emplace_back(new Ctx()); f.x = f.w.ctxs.back().get(); f.x->type = t;
	f.x->p = pomp_ctx_new_with_loop(evt, &f, f.w.loop); MC_CHECK(f.x->p, "no context");
	if (israw) MC_CHECK(pomp_ctx_set_raw(f.x->p, raw) == 0, "no raw");
	if (scb) MC_CHECK(pomp_ctx_set_socket_cb(f.x->p, sock) == 0, "no socket callback");
	if (k) keep_set(KEEPS[k]);
	simk::bind_policy = [](Sock *s, const Addr &) { ready(s, "bind"); return 0; };
	simk::connect_policy = [](Sock *s, const Addr &) { ready(s, "connect"); return 0; };
	ctx_is("not started");
}
void over(CF &f)
{
	MC_CHECK(f.info.empty(), "%zu connections were not disconnected", f.info.size());
	f.bound.clear(); ctx_is("stopped");
	settle();
	MC_CHECK(pomp_ctx_destroy(f.x->p) == 0, "pomp_ctx_destroy failed");
	MC_CHECK(pomp_loop_destroy(f.w.loop) == 0, "pomp_loop_destroy failed");
	callbacks(f.scb, f.x->type);
	simk::bind_policy = nullptr; simk::connect_policy = nullptr;
}

void server()
{
	CF f; int conf = pick(4, "loop, event and timer implementations");
	bool israw = pick(2, "raw"); f.scb = pick(2, "socket callback");
	Fam a = fam(pick(5, "family")); note("  %s", a.name);
	int k = pick(3, "keep-alive"), k2 = pick(3, "keep-alive later");
	static const unsigned MODES[] = { 0, 0600, 0777, 0640 };
	int m = unixaddr(a.addr) ? pick(5, "access mode") : pick(2, "access mode") * 4;
	bool path = unixaddr(a.addr) && a.addr[2];
	setup(f, SERVER, conf, israw, f.scb, k);
	/* files: a stale socket, and others that are none of its business */
	simk::vfs.insert("/tmp/other.sock"); simk::vfs_mode["/tmp/other.sock"] = 0700;
	simk::vfs.insert("/tmp/mc.soc"); simk::vfs.insert("/tmp/mc.sock2");
	if (path && pick(2, "stale file")) { simk::vfs.insert("/tmp/mc.sock"); simk::vfs_mode["/tmp/mc.sock"] = 0444; }
	MC_CHECK(start(SERVER, a.given, m ? MODES[m - 1] : 0, m > 0) == 0, "cannot listen");
	unsigned umode = 0777 & ~022;
	if (path) { unsigned want = m && MODES[m - 1] ? MODES[m - 1] : umode; MC_CHECK(simk::vfs.count("/tmp/mc.sock") && simk::vfs_mode["/tmp/mc.sock"] == want, "the socket has mode %o instead of %o", simk::vfs_mode["/tmp/mc.sock"], want); }
	MC_CHECK(simk::vfs_mode["/tmp/other.sock"] == 0700, "the mode of another file was changed");
	f.bound = a.addr; ctx_is("listening"); fds_ok("listening");
	Sock *l = simk::find_listener(((const sockaddr *)a.addr.data())->sa_family, SOCK_STREAM, a.addr);
	MC_CHECK(l && l->lib, "it does not listen");
	if (!unixaddr(a.addr)) MC_CHECK(opt(l, SOL_SOCKET, SO_REUSEADDR, 0), "the address of the server cannot be used again at once");
	/* clients of two processes; on unix sockets one has a name */
	Sock *e[3];
	for (int i = 0; i < 3; i++) {
		simk::env_pid = 40 + 10 * i;
		Addr from = unixaddr(a.addr) ? (i == 1 ? a.addr2 : Addr()) : i == 1 ? a.addr2 : Addr();
		if (i == 2) { simk::env_pid = 0; }
		e[i] = simk::env_connect(a.addr, from); MC_CHECK(e[i], "refused");
		f.expect = [&f, &e, &a, i](struct pomp_conn *c) { Sock *s = e[i]; f.info[c] = { a.addr, s->local, unixaddr(a.addr), s->pid, s->uid, s->gid }; };
		settle();
		MC_CHECK(f.ncon == i + 1, "client %d was not accepted", i);
		infos("later"); fds_ok("connected");
		if (i == 0 && k2 != k) { /* does not touch the connection that is there */
			Keep before = f.keep; keep_set(KEEPS[k2]);
			for (auto &c : f.info) keepalive_is(simk::sock_of(pomp_conn_get_fd(c.first)), before, "earlier connection");
		}
		if (k2 == k || i > 0) { Bytes b = israw ? Bytes("data") : mkmsg(f.id++, 20); simk::env_send(e[i], b.data(), b.size()); settle(); MC_CHECK(f.nmsg == i + (k2 == k), "message not received"); infos("after a message"); }
	}
	MC_CHECK(opt(l, SOL_SOCKET, SO_KEEPALIVE, 0) == 0 || !unixaddr(a.addr), "keep-alive on a unix socket");
	ctx_is("connected");
	switch (pick(4, "first client")) {
	case 0: break;
	case 1: simk::env_close(e[0]); break;
	case 2: simk::env_reset(e[0]); break;
	case 3: simk::env_shutdown_wr(e[1]); break;
	}
	settle(); infos("after the end of another"); ctx_is("connected");
	if (path) MC_CHECK(simk::vfs.count("/tmp/mc.sock"), "the socket file is gone while the server runs");
	MC_CHECK(pomp_ctx_stop(f.x->p) == 0, "stop failed");
	MC_CHECK(f.ndis == 3, "%d of 3 connections were disconnected", f.ndis);
	if (path) MC_CHECK(!simk::vfs.count("/tmp/mc.sock"), "the socket file is still there");
	for (const char *o : {"/tmp/other.sock", "/tmp/mc.soc", "/tmp/mc.sock2"}) MC_CHECK(simk::vfs.count(o), "%s was removed", o);
	f.bound.clear(); ctx_is("stopped");
	/* started again: nothing of the first time is left */
	if (pick(2, "again")) {
		Addr b = path ? simk::un("/tmp/mc2.sock") : unixaddr(a.addr) ? simk::un("/tmp/mc3.sock") : simk::un("@again");
		MC_CHECK(start(SERVER, b, 0, false) == 0, "cannot listen again");
		f.bound = b; ctx_is("listening again");
		if (b[2]) { std::string n(b.c_str() + 2); MC_CHECK(simk::vfs.count(n) && simk::vfs_mode[n] == umode, "the socket has mode %o instead of %o", simk::vfs_mode[n], umode); }
		simk::env_pid = 90; Sock *g = simk::env_connect(b); MC_CHECK(g, "refused");
		f.expect = [&f, &b, g](struct pomp_conn *c) { f.info[c] = { b, g->local, true, g->pid, g->uid, g->gid }; };
		settle(); MC_CHECK(f.ncon == 4, "not accepted");
		MC_CHECK(pomp_ctx_stop(f.x->p) == 0, "stop failed");
		for (const char *o : {"/tmp/other.sock", "/tmp/mc.soc", "/tmp/mc.sock2"}) MC_CHECK(simk::vfs.count(o), "%s was removed", o);
		if (b[2]) MC_CHECK(!simk::vfs.count(b.c_str() + 2), "the socket file is still there");
	}
	outcome(f.ncon * 8 + f.nmsg);
	over(f);
}

void client()
{
	CF f; int conf = pick(4, "loop, event and timer implementations");
	bool israw = pick(2, "raw"); f.scb = pick(2, "socket callback");
	Fam a = fam(pick(5, "family")); note("  %s", a.name);
	int k = pick(3, "keep-alive"), k2 = pick(3, "keep-alive later");
	int late = pick(3, "server");   /* there at once, later, there after a while */
	cfg.connect_mode = pick(2, "immediate connection");
	setup(f, CLIENT, conf, israw, f.scb, k);
	simk::vfs.insert("/tmp/other.sock");
	Sock *l = nullptr; int gen = 0;
	auto serve = [&] { simk::env_pid = 70 + 10 * gen++; l = simk::env_listen(a.addr); };
	f.expect = [&](struct pomp_conn *c) { Sock *s = simk::sock_of(pomp_conn_get_fd(c)); f.info[c] = { s->local, a.addr, unixaddr(a.addr), l->pid, l->uid, l->gid }; };
	if (!late) serve();
	MC_CHECK(start(CLIENT, a.given, 0, false) == 0, "cannot connect");
	if (late == 2 && k2 != k) keep_set(KEEPS[k2]);
	auto go = [&](int ms) { uint64_t t = now() + ms * MS; while (now() < t) process((int)((t - now()) / MS) ?: 1); settle(); };
	ctx_is("connecting");
	go(10);
	if (late) { MC_CHECK(f.ncon == 0, "connected to nothing"); fds_ok("waiting"); serve(); go(2100); }
	MC_CHECK(f.ncon == 1, "not connected"); ctx_is("connected"); fds_ok("connected"); infos("later");
	Sock *p = simk::env_accept(l); MC_CHECK(p, "nothing to accept");
	{ Bytes b = israw ? Bytes("data") : mkmsg(f.id++, 20); simk::env_send(p, b.data(), b.size()); settle(); MC_CHECK(f.nmsg == 1, "message not received"); infos("after a message"); }
	if (late != 2 && k2 != k) { Keep before = f.keep; keep_set(KEEPS[k2]); for (auto &c : f.info) keepalive_is(simk::sock_of(pomp_conn_get_fd(c.first)), before, "earlier connection"); }
	int end = pick(3, "end");
	if (end) {
		/* the server ends it and another process takes its place */
		simk::env_close(l); if (unixaddr(a.addr) && a.addr[2]) simk::vfs.erase(a.addr.c_str() + 2);
		serve();
		if (end == 1) simk::env_close(p); else simk::env_reset(p);
		go(2100);
		MC_CHECK(f.ndis == 1 && f.ncon == 2, "%d connections, %d disconnections", f.ncon, f.ndis);
		infos("connected again"); fds_ok("connected again");
	}
	MC_CHECK(pomp_ctx_stop(f.x->p) == 0, "stop failed");
	MC_CHECK(f.ndis == f.ncon, "%d connections, %d disconnections", f.ncon, f.ndis);
	/* a client removes nothing */
	if (unixaddr(a.addr) && a.addr[2]) MC_CHECK(simk::vfs.count("/tmp/mc.sock"), "the client has removed the server's socket file");
	MC_CHECK(simk::vfs.count("/tmp/other.sock"), "a file was removed");
	for (auto &e : simk::events) MC_CHECK(e.what.compare(0, 6, "chmod ") && e.what.compare(0, 7, "unlink "), "a client has changed a file");
	outcome(f.ncon * 8 + f.nmsg);
	over(f);
}

void dgram()
{
	CF f; int conf = pick(4, "loop, event and timer implementations");
	bool israw = pick(2, "raw"); f.scb = pick(2, "socket callback");
	bool six = pick(2, "family"); bool anyport = pick(2, "any port");
	int k = pick(3, "keep-alive");
	setup(f, DGRAM, conf, israw, f.scb, k);
	Addr a = six ? simk::in6(anyport ? 0 : 5000) : simk::in4(INADDR_LOOPBACK, anyport ? 0 : 5000);
	for (int round = 0; round < 2; round++) {
		MC_CHECK(start(DGRAM, a, 0, false) == 0, "cannot bind");
		Sock *s = nullptr; for (int fd = 0; fd < NFD; fd++) if (Sock *x = simk::sock_of(fd)) if (x->lib && x->stype == SOCK_DGRAM) s = x;
		MC_CHECK(s, "no socket");
		f.bound = s->local; ctx_is("bound"); fds_ok("bound");
		MC_CHECK(opt(s, SOL_SOCKET, SO_KEEPALIVE, 0) == 0, "keep-alive on a datagram socket");
		MC_CHECK(opt(s, SOL_SOCKET, SO_REUSEADDR, 0), "the address cannot be used again at once");
		Bytes b = israw ? Bytes("data") : mkmsg(f.id++, 20); simk::env_dgram(six ? simk::in6(6000) : simk::in4(INADDR_LOOPBACK, 6000), f.bound, b.data(), b.size());
		settle(); MC_CHECK(f.nmsg == round + 1, "not received");
		ctx_is("after a message"); fds_ok("after a message");
		MC_CHECK(pomp_ctx_stop(f.x->p) == 0, "stop failed");
		f.bound.clear(); ctx_is("stopped");
	}
	MC_CHECK(!f.ncon && !f.ndis, "connection events on a datagram context");
	outcome(f.nmsg);
	over(f);
}
Reg r([] {
	add("C25", "server", server);
	add("C25", "client", client);
	add("C25", "dgram", dgram);
});
}

/* C07, C08: life of contexts and their connections */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
static int disconnect(Conn &c)
{
	update_all();
	c.shut = true;
	int r = pomp_conn_disconnect(c.p);
	note("  disconnect conn %d.%d = %d", c.x->id, c.id, r);
	MC_CHECK(r == 0, "pomp_conn_disconnect returned %d", r);
	return r;
}
/* what the library holds when a context exists but is stopped */
struct Base {
	int fds; size_t mem; size_t nev;
	void take() { fds = simk::open_lib_fds(); mem = simk::lib_allocs(); }
	void check(const char *when) {
		MC_CHECK(simk::open_lib_fds() == fds, "%s the library holds %d descriptors instead of %d:%s", when, simk::open_lib_fds(), fds, simk::describe_lib_fds().c_str());
		MC_CHECK(simk::lib_allocs() == mem, "%s the library holds %zu heap blocks instead of %zu: %s", when, simk::lib_allocs(), mem, simk::describe_allocs().c_str());
	}
};
/* the peers of the environment */
struct Peers {
	std::vector<Sock *> open;
	Sock *last() { return open.empty() ? nullptr : open.back(); }
	void drop() { open.pop_back(); }
};
/* nothing is ever attempted by a context that is stopped */
static void quiet_for(uint64_t ms)
{
	size_t n = simk::events.size();
	uint64_t end = now() + ms * MS;
	while (now() < end) { simk::advance(500 * MS); process(0); }
	MC_CHECK(simk::events.size() == n, "a stopped context goes on using sockets (%s)", simk::events.back().what.c_str());
}

/* ---- C07: sequences of operations on one context ---- */
static void c07_server(int depth, bool inner)
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Ctx *x = &mkctx(SERVER, raw, true, true);
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam);
	Peers p; uint32_t id = 1;
	int left = inner ? 2 : 0;
	/* one operation inside a callback */
	auto act = [&](Conn &c, const char *what) {
		if (left <= 0) return;
		switch (pick(4, what)) {
		case 0: return;
		case 1: if (c.live && !c.shut) disconnect(c); break;
		case 2: ctx_stop(*c.x); break;
		case 3: if (c.live && !c.shut && !c.s->hup) csend(c, payload(raw, id++, 15)); break;
		}
		left--;
	};
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) { act(c, ev == POMP_EVENT_CONNECTED ? "in CONNECTED" : ev == POMP_EVENT_MSG ? "in MSG" : "in DISCONNECTED"); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { act(c, "in raw data"); };
	w.on_send = [&](Ctx &, Conn &c, struct pomp_buffer *, uint32_t) { act(c, "in a report"); };
	for (int i = 0; i < depth; i++) {
		switch (pick(11, "operation")) {
		case 0: ctx_start(*x, a); break;
		case 1: if (!x->running) prune(); ctx_stop(*x); if (!x->running) base.check("after stop"); break;
		case 2: { Sock *e = simk::env_connect(a); note("  a peer connects: %s", e ? "yes" : "refused"); MC_CHECK(!!e == (x->running && !x->stopping) || x->stopping, "a peer %s although the server is %s", e ? "could connect" : "was refused", x->running ? "running" : "stopped"); if (e) p.open.push_back(e); break; }
		case 3: if (!p.last()) prune(); note("  the peer closes"); if (Conn *c = conn_of(p.last()->peer)) c->lossy |= c->shut; simk::env_close(p.last()); p.drop(); break;
		case 4: if (!p.last()) prune(); note("  the peer resets"); if (Conn *c = conn_of(p.last()->peer)) c->lossy = true; simk::env_reset(p.last()); p.drop(); break;
		case 5: if (!p.last() || p.last()->wrshut) prune(); peer_send(p.last(), payload(raw, id++, 20), raw); break;
		case 6: process(0); break;
		case 7: { Conn *c = x->last(); if (!c || c->shut) prune(); disconnect(*c); break; }
		case 8: { Conn *c = x->last(); if (!c || c->shut || c->s->hup) prune(); csend(*c, payload(raw, id++, 15)); break; }
		case 9: { ctx_destroy(*x); if (!x->p) { x = &mkctx(SERVER, raw, true, true); base.take(); } break; }
		case 10: if (!p.last() || p.last()->wrshut) prune(); note("  the peer ends its side"); simk::env_shutdown_wr(p.last()); break;
		}
		if (x->p) check_conns(*x);
	}
	left = 0;
	settle();
	check_conns(*x);
	if (x->running) {
		/* exactly the peers that are still there are connected */
		size_t n = 0;
		for (Sock *e : p.open) {
			Conn *c = e->peer ? conn_of(e->peer) : nullptr;
			bool want = e->peer && !e->wrshut && !e->hup;
			MC_CHECK(!want || (c && c->live), "a peer is connected but has no connection");
			if (e->wrshut) MC_CHECK(!c || !c->live, "the peer has ended the connection but it is still there");
			if (c && c->live) n++;
		}
		MC_CHECK(n == x->live().size(), "%zu connections but %zu peers", x->live().size(), n);
		for (Conn *c : x->live()) MC_CHECK(W->rx[c->s].msgs.empty() && W->rx[c->s].raw.empty(), "data that arrived was not delivered");
	}
	for (Sock *e : p.open) simk::env_close(e);
	settle();
	MC_CHECK(x->live().empty(), "connections are left that no peer has");
	if (x->running) ctx_stop(*x);
	settle();
	base.check("after the last stop");
	quiet_for(3000);
	MC_CHECK(x->ncon == x->ndiscon, "%d CONNECTED and %d DISCONNECTED events", x->ncon, x->ndiscon);
	outcome(x->ncon * 64 + x->nmsg);
	finish();
}
static void c07_server_ops() { c07_server(thorough() ? 8 : 7, false); }
static void c07_server_inner() { c07_server(thorough() ? 7 : 6, true); }

static void c07_client(int depth, bool inner)
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	cfg.connect_mode = w.fam == AF_INET ? pick(2, "connects at once") : 0;
	Ctx *x = &mkctx(CLIENT, raw, true, true);
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam);
	Peers p; uint32_t id = 1;
	Sock *l = simk::env_listen(a);
	int left = inner ? 2 : 0;
	auto act = [&](Conn &c, const char *what) {
		if (left <= 0) return;
		switch (pick(4, what)) {
		case 0: return;
		case 1: if (c.live && !c.shut) disconnect(c); break;
		case 2: ctx_stop(*c.x); break;
		case 3: if (c.live && !c.shut && !c.s->hup) csend(c, payload(raw, id++, 15)); break;
		}
		left--;
	};
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) {
		if (ev == POMP_EVENT_CONNECTED) MC_CHECK(c.s->st == Sock::CONNECTED || c.s->hup, "CONNECTED on a socket that is not connected");
		act(c, ev == POMP_EVENT_CONNECTED ? "in CONNECTED" : ev == POMP_EVENT_MSG ? "in MSG" : "in DISCONNECTED"); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { act(c, "in raw data"); };
	w.on_send = [&](Ctx &, Conn &c, struct pomp_buffer *, uint32_t) { act(c, "in a report"); };
	for (int i = 0; i < depth; i++) {
		switch (pick(12, "operation")) {
		case 0: ctx_start(*x, a); break;
		case 1: if (!x->running) prune(); ctx_stop(*x); if (!x->running) base.check("after stop"); break;
		case 2: { if (!l) prune(); Sock *e = simk::env_accept(l); if (!e) prune(); note("  the peer accepts"); p.open.push_back(e); break; }
		case 3: if (!p.last()) prune(); note("  the peer closes"); if (Conn *c = conn_of(p.last()->peer)) c->lossy |= c->shut; simk::env_close(p.last()); p.drop(); break;
		case 4: if (!p.last()) prune(); note("  the peer resets"); if (Conn *c = conn_of(p.last()->peer)) c->lossy = true; simk::env_reset(p.last()); p.drop(); break;
		case 5: if (!p.last() || p.last()->wrshut) prune(); peer_send(p.last(), payload(raw, id++, 20), raw); break;
		case 6: process(0); break;
		case 7: { Conn *c = x->last(); if (!c || c->shut) prune(); disconnect(*c); break; }
		case 8: { Conn *c = x->last(); if (!c || c->shut || c->s->hup) prune(); csend(*c, payload(raw, id++, 15)); break; }
		case 9: { ctx_destroy(*x); if (!x->p) { x = &mkctx(CLIENT, raw, true, true); base.take(); } break; }
		case 10: note("  2 s pass"); simk::advance(2000 * MS); process(0); process(0); break;
		case 11: if (l) { note("  the listener goes"); simk::env_close(l); if (w.fam == AF_UNIX) simk::vfs.clear(); l = nullptr; } else { note("  the listener comes"); l = simk::env_listen(a); } break;
		}
		if (x->p) check_conns(*x);
	}
	left = 0;
	settle();
	check_conns(*x);
	if (l) while (Sock *e = simk::env_accept(l)) p.open.push_back(e);
	if (x->running) {
		size_t n = 0;
		for (Sock *e : p.open) {
			Conn *c = e->peer ? conn_of(e->peer) : nullptr;
			if (e->peer && !e->wrshut && !e->hup) n++;
			if (e->wrshut) MC_CHECK(!c || !c->live, "the peer has ended the connection but it is still there");
			MC_CHECK(!(e->peer && !e->wrshut && !e->hup) || (c && c->live), "a peer is connected but the client has no connection");
		}
		MC_CHECK(n <= 1, "the client is connected %zu times", n);
		for (Conn *c : x->live()) MC_CHECK(W->rx[c->s].msgs.empty() && W->rx[c->s].raw.empty(), "data that arrived was not delivered");
	}
	for (Sock *e : p.open) simk::env_close(e);
	if (l) simk::env_close(l);
	settle();
	MC_CHECK(x->live().empty(), "a connection is left that no peer has");
	if (x->running) ctx_stop(*x);
	settle();
	base.check("after the last stop");
	quiet_for(3000);
	MC_CHECK(x->ncon == x->ndiscon, "%d CONNECTED and %d DISCONNECTED events", x->ncon, x->ndiscon);
	outcome(x->ncon * 64 + x->nmsg);
	finish();
}
static void c07_client_ops() { c07_client(thorough() ? 7 : 6, false); }
static void c07_client_inner() { c07_client(thorough() ? 6 : 5, true); }

/* a server and a client of the library, in the same loop or each in its own */
static void c07_pair()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = false;
	Ctx &s = mkctx(SERVER, raw, true), &c1 = mkctx(CLIENT, raw, true), &c2 = mkctx(CLIENT, raw, true);
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam);
	uint32_t id = 1;
	int order = pick(2, "client first");
	if (order) { ctx_start(c1, a); ctx_start(s, a); } else { ctx_start(s, a); ctx_start(c1, a); }
	ctx_start(c2, a);
	w.lossy_ok = true;   /* both ends close: what is under way is lost */
	int depth = thorough() ? 7 : 6;
	for (int i = 0; i < depth; i++) {
		switch (pick(8, "operation")) {
		case 0: process(0); break;
		case 1: settle(); break;
		case 2: if (s.running) ctx_stop(s); else ctx_start(s, a); break;
		case 3: if (c1.running) ctx_stop(c1); else ctx_start(c1, a); break;
		case 4: { Conn *c = c1.last(); if (!c || c->shut) prune(); csend(*c, mkmsg(id++, 20)); break; }
		case 5: { Conn *c = s.last(); if (!c || c->shut) prune(); csend(*c, mkmsg(id++, 20)); break; }
		case 6: { Conn *c = s.last(); if (!c || c->shut) prune(); disconnect(*c); break; }
		case 7: note("  2 s pass"); simk::advance(2000 * MS); process(0); break;
		}
		for (auto &x : w.ctxs) check_conns(*x);
	}
	/* with everything running again, every client is connected in the end */
	if (!s.running) ctx_start(s, a);
	if (!c1.running) ctx_start(c1, a);
	for (int i = 0; i < 6; i++) { settle(); simk::advance(1000 * MS); }
	settle();
	MC_CHECK(c1.last() && c2.last(), "a client is not connected to the server that is there");
	MC_CHECK(s.live().size() == 2, "the server has %zu connections instead of 2", s.live().size());
	for (auto &x : w.ctxs) { check_conns(*x); for (Conn *c : x->live()) { MC_CHECK(c->nextrep == c->sends.size(), "sends were never reported"); MC_CHECK(w.rx[c->s].msgs.empty(), "messages were never delivered"); } }
	for (auto &x : w.ctxs) ctx_stop(*x);
	settle();
	base.check("after everything was stopped");
	quiet_for(3000);
	for (auto &x : w.ctxs) MC_CHECK(x->ncon == x->ndiscon, "%d CONNECTED and %d DISCONNECTED events", x->ncon, x->ndiscon);
	finish();
}
/* a start that fails leaves a context that is stopped */
static void c07_startfail()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Type t = pick(2, "type") ? DGRAM : SERVER;
	Ctx *x = &mkctx(t, false, false, pick(2, "socket callback"));
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam, t == SERVER ? pick(2, "address") : 0);   /* datagram contexts do not handle socket files */
	static const int E[] = {EADDRINUSE, EACCES, EINVAL};
	int err = E[pick(3, "error")];
	bool failing = true; w.mayfail = true;
	simk::bind_policy = [&](Sock *, const Addr &) { return failing ? err : 0; };
	for (int i = 0; i < (thorough() ? 5 : 4); i++) {
		switch (pick(5, "operation")) {
		case 0: { bool was = x->running; int r = ctx_start(*x, a); if (!was) MC_CHECK(r == (failing ? -err : 0), "start returned %d", r); if (r < 0 && !was) base.check("after a start that failed"); break; }
		case 1: ctx_stop(*x); base.check("after stop"); break;
		case 2: failing = !failing; note("  bind now %s", failing ? "fails" : "works"); break;
		case 3: process(0); break;
		case 4: { ctx_destroy(*x); if (!x->p) { x = &mkctx(t); base.take(); } break; }
		}
	}
	if (x->running) ctx_stop(*x);
	base.check("at the end");
	quiet_for(3000);
	finish();
}
/* datagram contexts */
static void c07_dgram()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_INET6 : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Ctx *x = &mkctx(DGRAM, raw, true, true);
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam), b = addr_of(w.fam, 7);
	uint32_t id = 1; int due = 0;
	for (int i = 0; i < (thorough() ? 6 : 5); i++) {
		switch (pick(6, "operation")) {
		case 0: ctx_start(*x, a); break;
		case 1: if (!x->running) prune(); ctx_stop(*x); base.check("after stop"); due = 0; x->nmsg = 0; break;
		case 2: { Bytes m = payload(raw, id++, 20); simk::env_dgram(b, a, m.data(), m.size()); note("  a datagram arrives"); if (x->running) due++; break; }
		case 3: process(0); break;
		case 4: {
			Bytes m = payload(raw, id++, 20); size_t n = simk::dgrams.size();
			if (!x->running) { struct pomp_buffer *buf = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = raw ? nullptr : pomp_msg_new_with_buffer(buf); int r = raw ? pomp_ctx_send_raw_buf_to(x->p, buf, sa(b), b.size()) : pomp_ctx_send_msg_to(x->p, pm, sa(b), b.size()); if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(buf); MC_CHECK(r < 0 && simk::dgrams.size() == n, "a stopped context sends (%d)", r); break; }
			int r = dsend(*x, m, b);
			MC_CHECK(r == 0 && simk::dgrams.size() == n + 1 && simk::dgrams.back().data == m && simk::dgrams.back().to == b, "the datagram was not sent (%d)", r);
			break; }
		case 5: { ctx_destroy(*x); if (!x->p) { x = &mkctx(DGRAM, raw, true, true); base.take(); due = 0; } break; }
		}
	}
	settle();
	if (x->running) MC_CHECK(x->nmsg == due, "%d datagrams were delivered instead of %d", x->nmsg, due);
	if (x->running) ctx_stop(*x);
	base.check("after the last stop");
	quiet_for(3000);
	finish();
}
/* contexts that are waiting for their next attempt when they are stopped */
static void c07_waiting()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_INET6 : AF_INET;
	begin(w); mkloop();
	Type t = (Type)pick(3, "type");
	Ctx *x = &mkctx(t, false, true, pick(2, "socket callback"));
	process(0);
	Base base; base.take();
	Addr a = addr_of(w.fam), b = addr_of(w.fam, 7);
	bool avail = false;
	simk::bind_policy = [&](Sock *s, const Addr &q) { return s->lib && q == a && !avail ? EADDRNOTAVAIL : 0; };
	simk::connect_policy = [&](Sock *s, const Addr &) { return s->lib && !avail ? ECONNREFUSED : 0; };
	Sock *l = t == CLIENT ? simk::env_listen(b) : nullptr;
	Addr to = t == CLIENT ? b : a;
	std::vector<Sock *> es;
	int depth = thorough() ? 7 : 6;
	size_t nev = 0;
	for (int i = 0; i < depth; i++) {
		switch (pick(7, "operation")) {
		case 0: ctx_start(*x, to); break;
		case 1: if (!x->running) prune(); ctx_stop(*x); base.check("after stop"); nev = simk::events.size(); break;
		case 2: avail = !avail; note("  the address is now %savailable", avail ? "" : "not "); break;
		case 3: process(0); break;
		case 4: note("  1 s passes"); simk::advance(1000 * MS); process(0); process(0); break;
		case 5: note("  2 s pass"); simk::advance(2000 * MS); process(0); process(0); break;
		case 6: { ctx_destroy(*x); if (!x->p) { x = &mkctx(t, false, true); base.take(); } break; }
		}
		if (!x->running) { MC_CHECK(simk::events.size() == nev || nev == 0, "a stopped context goes on using sockets (%s)", simk::events.back().what.c_str()); base.check("while stopped"); nev = simk::events.size(); }
		else nev = 0;
		check_conns(*x);
		if (l) while (Sock *e = simk::env_accept(l)) es.push_back(e);
	}
	if (x->running) {
		/* it does get there when it can */
		avail = true;
		for (int i = 0; i < 6; i++) { simk::advance(1000 * MS); process(0); process(0); if (l) while (Sock *e = simk::env_accept(l)) es.push_back(e); }
		if (t == CLIENT) MC_CHECK(x->last(), "the client is not connected");
		else if (t == SERVER) { Sock *e = simk::env_connect(a); MC_CHECK(e, "the server is not there"); settle(); MC_CHECK(x->live().size() == 1, "the server did not accept"); simk::env_close(e); settle(); }
		else { Bytes m = mkmsg(5, 20); int n = x->nmsg; simk::env_dgram(addr_of(w.fam, 9), a, m.data(), m.size()); settle(); MC_CHECK(x->nmsg == n + 1, "the datagram was not delivered"); }
		ctx_stop(*x);
	}
	settle();
	base.check("after the last stop");
	for (Sock *e : es) simk::env_close(e);
	if (l) simk::env_close(l);
	quiet_for(5000);
	MC_CHECK(x->ncon == x->ndiscon, "%d CONNECTED and %d DISCONNECTED events", x->ncon, x->ndiscon);
	finish();
}
/* one of the descriptors has the number 0: the program has closed its standard input */
static void zero(int n, void (*fn)()) { cfg.zero = 1 + pick(n, "descriptor that gets the number 0"); fn(); }
static Reg r07([] {
	add("C07", "zero-server", [] { zero(8, [] { c07_server(thorough() ? 6 : 5, false); }); });
	add("C07", "zero-client", [] { zero(8, [] { c07_client(thorough() ? 6 : 4, false); }); });
	add("C07", "zero-dgram", [] { zero(8, c07_dgram); });
	add("C07", "zero-startfail", [] { zero(8, c07_startfail); }, 0, 0, true);
	add("C07", "server", c07_server_ops, 0, 1);
	add("C07", "server-inner", c07_server_inner, 0, 0);
	add("C07", "client", c07_client_ops, 0, 1);
	add("C07", "client-inner", c07_client_inner, 0, 0);
	add("C07", "pair", c07_pair, 0, 1);
	add("C07", "startfail", c07_startfail);
	add("C07", "waiting", c07_waiting);
	add("C07", "dgram", c07_dgram);
});

/* ---- C08: going on trying ---- */
/* time passes until the library makes another attempt; returns when it was made */
static uint64_t next_event(const char *what, size_t from, uint64_t limit)
{
	uint64_t end = now() + limit * MS;
	for (;;) {
		for (size_t i = from; i < simk::events.size(); i++) if (simk::events[i].what == what) return simk::events[i].t;
		if (now() >= end) return UINT64_MAX;
		process((int)std::min<uint64_t>(250, (end - now()) / MS + 1));
	}
}
static void c08_outcomes_(int n)
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Ctx &x = mkctx(CLIENT, pick(2, "raw"), true, true);
	Addr a = addr_of(w.fam, pick(2, "address"));
	Sock *l = nullptr; std::vector<Sock *> old;
	int kind = 0;
	uint64_t failed = 0;      /* when the attempt failed or the connection was lost */
	simk::connect_policy = [&](Sock *, const Addr &) -> int {
		switch (kind) {
		case 1: failed = now(); return ECONNREFUSED;
		case 2: failed = now(); return ENETUNREACH;
		case 3: failed = now(); return w.fam == AF_UNIX ? EAGAIN : EADDRNOTAVAIL;
		case 4: failed = now() + (w.fam == AF_UNIX ? 0 : 1000); return -ETIMEDOUT;
		case 5: failed = now() + (w.fam == AF_UNIX ? 0 : 1000); return -EHOSTUNREACH;
		case 6: failed = now() + (w.fam == AF_UNIX ? 0 : 1000); return 0;   /* nobody listens */
		}
		return 0;
	};
	for (int i = 0; i < n; i++) {
		size_t from = simk::events.size();
		kind = pick(11, "outcome");
		/* 0, 7.. connected, then lost in different ways */
		bool ok = kind == 0 || kind >= 7;
		if (ok && !l) l = simk::env_listen(a);
		if (!ok && l && kind == 6) { simk::env_close(l); l = nullptr; if (pick(2, "socket file left")) ; else simk::vfs.clear(); }
		static const char *const KIND[] = {"connected, peer closes", "refused at once", "unreachable at once", "no resources", "timeout later", "unreachable later", "nobody listens", "connected, peer resets", "connected, disconnected", "connected, closed before it was noticed", "connected, messages first"};
		note(" attempt %d: %s", i, KIND[kind]);
		uint64_t since = failed;
		if (i == 0) MC_CHECK(ctx_start(x, a) == 0, "pomp_ctx_connect failed");
		else {
			uint64_t t = next_event("connect", from, 4000);
			MC_CHECK(t != UINT64_MAX, "no new attempt within 4 s after attempt %d failed", i - 1);
			MC_CHECK(t >= since + 1500 * MS && t <= since + 2500 * MS, "new attempt %.3f s after the failure", (double)(int64_t)(t - since) / 1e9);
		}
		if (!ok) {
			from = simk::events.size();
			for (int k = 0; k < 3; k++) process(1);
			MC_CHECK(!x.last(), "CONNECTED although nobody accepts connections");
			continue;
		}
		if (kind == 9) {
			simk::advance(5000);
			if (w.fam == AF_INET) process(0);
			Sock *e = simk::env_accept(l); MC_CHECK(e, "no connection arrived");
			failed = now(); if (Conn *c = x.last()) c->lossy = true; simk::env_reset(e); settle(); continue;
		}
		for (int k = 0; k < 4 && !x.last(); k++) process(1);
		Conn *c = x.last();
		MC_CHECK(c, "the server is there but the client is not connected");
		Sock *e = simk::env_accept(l);
		MC_CHECK(e, "no connection arrived");
		from = simk::events.size();
		if (pick(2, "stays for a while")) for (int k = 0; k < 12; k++) process(500);
		MC_CHECK(simk::events.size() == from && x.last() == c, "a connected client makes another attempt");
		if (kind == 10) { peer_send(e, payload(x.raw, 7, 20), x.raw); csend(*c, payload(x.raw, 9, 20)); settle(); }
		if (kind == 8) { disconnect(*c); settle(); process(700); MC_CHECK(c->live, "closed"); }
		failed = now();
		if (kind == 7) { c->lossy = true; simk::env_reset(e); } else simk::env_close(e);
		settle();
		MC_CHECK(!c->live, "the end of the connection was not noticed");
	}
	size_t from = simk::events.size();
	kind = 0; if (!l) { simk::vfs.clear(); l = simk::env_listen(a); }
	if (pick(2, "stopped")) {
		if (pick(2, "while connecting")) { next_event("connect", from, 4000); }
		ctx_stop(x); settle(); quiet_for(10000);
	} else {
		MC_CHECK(next_event("connect", from, 4000) != UINT64_MAX, "no new attempt within 4 s");
		for (int k = 0; k < 4 && !x.last(); k++) process(1);
		MC_CHECK(x.last(), "the server is there but the client is not connected");
	}
	simk::env_close(l);
	finish();
}
/* transient failures of any system call during attempts, then all is well */
static const uint64_t RETRY_FAULTS = simk::F_SOCKET | simk::F_BIND | simk::F_LISTEN | simk::F_ACCEPT | simk::F_CONNECT | simk::F_FCNTL | simk::F_SETSOCKOPT | simk::F_GETSOCKOPT | simk::F_GETSOCKNAME | simk::F_GETPEERNAME | simk::F_EPOLL_CTL | simk::F_CHMOD | simk::F_MALLOC;
static void c08_client_faults()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Ctx &x = mkctx(CLIENT, pick(2, "raw"), false, true);
	w.lossy_ok = true;
	Addr a = addr_of(w.fam);
	Sock *l = nullptr;
	int when = pick(3, "listener");
	if (when == 0) l = simk::env_listen(a);
	bool startfaulty = pick(2, "faults from the start");
	cfg.maxfaults = 3;
	if (startfaulty) cfg.faults = RETRY_FAULTS;
	int r = ctx_start(x, a);
	if (r < 0) {
		MC_CHECK(simk::faults_injected, "pomp_ctx_connect failed with %d", r);
		cfg.faults = 0;
		MC_CHECK(ctx_start(x, a) == 0, "pomp_ctx_connect failed after an earlier failure");
	}
	cfg.faults = RETRY_FAULTS;
	for (int i = 0; i < 10; i++) { process(500); if (i == 5 && !l && when == 1) l = simk::env_listen(a); }
	cfg.faults = 0;
	if (!l) l = simk::env_listen(a);
	for (int i = 0; i < 10; i++) { process(500); }
	Conn *c = x.last();
	MC_CHECK(c, "the server is there but the client is not connected 5 s after the last transient error");
	/* and it is a usable connection, the last of those that arrived */
	Sock *e = nullptr;
	while (Sock *k = simk::env_accept(l)) { if (e) simk::env_close(e); e = k; }
	MC_CHECK(e && c->s->peer == e, "connected to something else");
	csend(*c, payload(x.raw, 3, 20)); settle();
	peer_read(e, c->acc); MC_CHECK(w.wire[e].size() == c->acc.size(), "the connection does not transfer data");
	simk::env_close(e); settle();
	for (int i = 0; i < 6; i++) process(500);
	MC_CHECK(x.last(), "the client does not reconnect");
	simk::env_close(l);
	finish();
}
static void c08_outcomes() { c08_outcomes_(thorough() ? 5 : 4); }
/* addresses that are not available yet */
static void c08_bind_(bool faults)
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	int type = pick(3, "type");
	Type t = type == 2 ? DGRAM : SERVER;
	w.fam = type == 1 ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Ctx &x = mkctx(t, pick(2, "raw"), false, true);
	process(0);
	Base base; base.take();
	w.lossy_ok = faults;
	Addr a = addr_of(w.fam, t == SERVER && w.fam == AF_UNIX ? 1 : 0);
	int n = faults ? 1 + pick(2, "attempts in vain") : pick(5, "attempts in vain");
	int tries = 0; bool avail = n == 0;
	simk::bind_policy = [&](Sock *, const Addr &) { tries++; return avail ? 0 : EADDRNOTAVAIL; };
	int r = ctx_start(x, a, w.fam == AF_UNIX ? 0600 : 0);
	MC_CHECK(r == 0, "start returned %d although the address may come later", r);
	uint64_t last = now();
	if (!faults) {
		for (int i = 1; i < n; i++) {
			size_t from = simk::events.size();
			uint64_t tt = next_event("bind", from, 4000);
			MC_CHECK(tt != UINT64_MAX, "no new attempt to bind within 4 s");
			MC_CHECK(tt >= last + 1500 * MS && tt <= last + 2500 * MS, "new attempt %.3f s after the last one", (tt - last) / 1e9);
			last = tt;
			MC_CHECK(tries == i + 1, "%d attempts instead of %d", tries, i + 1);
		}
	} else {
		cfg.maxfaults = 3; cfg.faults = RETRY_FAULTS;
		for (int i = 0; i < 10; i++) { process(500); if (i == 3) avail = n == 1; }
		cfg.faults = 0;
	}
	int stop = faults ? 0 : pick(3, "then");
	if (stop == 1) {
		ctx_stop(x); base.check("after stop");
		quiet_for(6000);
	} else if (stop == 2) {
		/* started again: it tries at once and from then on */
		ctx_stop(x); tries = 0; avail = false;
		MC_CHECK(ctx_start(x, a) == 0 && tries == 1, "start again failed");
		last = now(); size_t from = simk::events.size();
		uint64_t tt = next_event("bind", from, 4000);
		MC_CHECK(tt != UINT64_MAX && tt >= last + 1500 * MS && tt <= last + 2500 * MS, "no attempt in time after the context was started again");
	}
	if (stop != 1) {
		avail = true;
		for (int i = 0; i < 6; i++) process(500);
		if (t == DGRAM) {
			Bytes m = payload(x.raw, 5, 20); int before = x.nmsg;
			simk::env_dgram(addr_of(w.fam, 7), a, m.data(), m.size());
			settle();
			MC_CHECK(x.nmsg == before + 1, "the address is there but a datagram was not received");
		} else {
			Sock *e = simk::env_connect(a);
			MC_CHECK(e, "the address is there but the server refuses connections");
			settle();
			MC_CHECK(x.last(), "the connection was not accepted");
			if (w.fam == AF_UNIX && stop == 0) MC_CHECK(simk::vfs_mode["/tmp/mc.sock"] == 0600, "socket file has mode %o", simk::vfs_mode["/tmp/mc.sock"]);
			simk::env_close(e);
			settle();
		}
		size_t from = simk::events.size();
		for (int i = 0; i < 6; i++) process(500);
		MC_CHECK(simk::events.size() == from || simk::events.back().what == "close", "it goes on trying although it is bound (%s)", simk::events.back().what.c_str());
	}
	finish();
}
static void c08_bind() { c08_bind_(false); }
static void c08_bind_faults() { c08_bind_(true); }
/* accept errors */
static void c08_accept()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Ctx &x = mkctx(SERVER, pick(2, "raw"), false, true);
	Addr a = addr_of(w.fam);
	MC_CHECK(ctx_start(x, a) == 0, "cannot listen");
	w.lossy_ok = true;
	cfg.maxfaults = 2; cfg.faults = RETRY_FAULTS; cfg.order = true;
	std::vector<Sock *> es;
	int n = 2 + pick(2, "peers");
	for (int i = 0; i < n; i++) { Sock *e = simk::env_connect(a); MC_CHECK(e, "a peer was refused"); es.push_back(e); if (pick(2, "processed")) process(0); }
	for (int i = 0; i < 3; i++) process(0);
	cfg.faults = 0;
	settle();
	size_t nl = 0;
	for (Sock *e : es) {
		Conn *c = e->peer ? conn_of(e->peer) : nullptr;
		MC_CHECK((c && c->live) || e->hup || e->rst, "a peer is neither accepted nor closed");
		if (c && c->live) { nl++; peer_send(e, payload(x.raw, 4, 20), x.raw); }
	}
	settle();
	MC_CHECK((int)nl >= n - simk::faults_injected, "%zu of %d peers accepted with %d faults", nl, n, simk::faults_injected);
	MC_CHECK(x.live().size() == nl, "%zu connections but %zu peers", x.live().size(), nl);
	check_conns(x);
	for (Conn *c : x.live()) MC_CHECK(w.rx[c->s].msgs.empty() && w.rx[c->s].raw.empty(), "messages were not delivered");
	Sock *e = simk::env_connect(a);
	MC_CHECK(e, "the server does not accept any more");
	settle();
	MC_CHECK(x.live().size() == nl + 1, "the server does not accept any more");
	for (Sock *s : es) simk::env_close(s);
	simk::env_close(e);
	finish();
}
/* as many connections as there can be */
static void c08_limit()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	Ctx &x = mkctx(SERVER, false, false, true);
	Addr a = addr_of(w.fam);
	MC_CHECK(ctx_start(x, a) == 0, "cannot listen");
	int n = 30 + pick(6, "peers"), batch = pick(2, "all at once");
	std::vector<Sock *> es;
	auto connect1 = [&] { Sock *e = simk::env_connect(a); MC_CHECK(e, "a peer was refused"); es.push_back(e); };
	for (int i = 0; i < n; i++) { connect1(); if (!batch) settle(); }
	settle();
	auto verify = [&] {
		size_t live = 0;
		for (Sock *e : es) { Conn *c = e->peer ? conn_of(e->peer) : nullptr; bool l = c && c->live; MC_CHECK(l || e->hup, "a peer is neither accepted nor closed"); live += l; }
		MC_CHECK(live == std::min<size_t>(32, es.size()), "%zu of %zu peers are connected", live, es.size());
		check_conns(x);
		MC_CHECK(x.live().size() == live, "%zu connections, %zu peers", x.live().size(), live);
	};
	verify();
	for (int k = 0; k < 3; k++) {
		/* some leave, others come */
		int leave = 1 + pick(2, "leave");
		for (int i = 0; i < leave; i++) { size_t j = 0; while (j < es.size() && !(es[j]->peer && conn_of(es[j]->peer))) j++; simk::env_close(es[j]); es.erase(es.begin() + j); }
		for (size_t j = 0; j < es.size();) { if (es[j]->hup) { simk::env_close(es[j]); es.erase(es.begin() + j); } else j++; }
		settle();
		int come = pick(4, "come");
		for (int i = 0; i < come; i++) connect1();
		settle();
		verify();
	}
	for (Sock *e : es) simk::env_close(e);
	finish();
}
static Reg r08([] {
	add("C08", "zero-outcomes", [] { zero(8, [] { c08_outcomes_(thorough() ? 3 : 2); }); });
	add("C08", "zero-bind", [] { zero(8, c08_bind); });
	add("C08", "zero-accept", [] { zero(8, c08_accept); }, 1, 2);
	add("C08", "outcomes", c08_outcomes);
	add("C08", "client-faults", c08_client_faults, 2, 3);
	add("C08", "bind", c08_bind);
	add("C08", "bind-faults", c08_bind_faults, 3, 4);
	add("C08", "accept", c08_accept, 3, 3);
	add("C08", "limit", c08_limit);
});

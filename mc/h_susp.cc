/* C22: suspending and resuming the reading of a connection */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
struct Mark { uint64_t nread; };
static std::map<Conn *, uint64_t> *SUSP;    /* bytes read when reading was suspended */

static void nothing_read()
{
	for (auto &k : *SUSP) if (k.first->live) MC_CHECK(k.first->s->nread == k.second, "%llu bytes were read from conn %d while it is suspended", (unsigned long long)(k.first->s->nread - k.second), k.first->id);
}
static void suspend(Conn &c, bool dgram = false)
{
	nothing_read();
	int r = pomp_conn_suspend_read(c.p);
	note("  suspend conn %d = %d", c.id, r);
	MC_CHECK(r == 0, "pomp_conn_suspend_read returned %d", r);
	if (!c.suspended) (*SUSP)[&c] = c.s->nread;
	c.suspended = true;
}
static void resume(Conn &c)
{
	nothing_read();
	int r = pomp_conn_resume_read(c.p);
	note("  resume conn %d = %d", c.id, r);
	MC_CHECK(r == 0, "pomp_conn_resume_read returned %d", r);
	c.suspended = false; SUSP->erase(&c);
}
static void due(Conn &c)
{
	Rx &r = W->rx[c.s];
	MC_CHECK(r.msgs.empty() && r.raw.empty(), "%zu messages and %zu raw bytes that arrived on conn %d are not delivered although it is not suspended", r.msgs.size(), r.raw.size(), c.id);
}

struct Peer { Sock *e; Conn *c = nullptr; Bytes rest; bool fin = false, reset = false, closed = false; };

/* two connections, A is suspended and resumed at any moment, from outside and from callbacks */
static void c22_main(bool raw, int depth, int budget)
{
	World w; W = &w; std::map<Conn *, uint64_t> su; SUSP = &su;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool client = pick(2, "client");
	int left = 0; uint32_t id = 1;
	cfg.cap = 64;
	Ctx &x = mkctx(client ? CLIENT : SERVER, raw, true), &y = mkctx(SERVER, false, false);
	Addr ax = addr_of(w.fam, 0), ay = addr_of(w.fam, 2);
	Peer A, B;
	auto act = [&](Ctx &cx, Conn &c, const char *what) {
		nothing_read();
		if (left <= 0 || !A.c || !A.c->live) return;
		int op = pick(5, what);
		if (!op) return;
		left--;
		switch (op) {
		case 1: suspend(*A.c); break;
		case 2: resume(*A.c); break;
		case 3: suspend(*A.c); resume(*A.c); break;
		case 4: if (!B.c || !B.c->live) prune(); if (B.c->suspended) resume(*B.c); else suspend(*B.c); break;
		}
	};
	w.on_event = [&](Ctx &cx, Conn &c, int ev, const struct pomp_msg *) {
		if (ev == POMP_EVENT_DISCONNECTED && c.suspended && !cx.stopping) MC_CHECK(c.s->rst || c.s->so_error || c.lossy, "conn %d ended while it is suspended, with data that has not been delivered", c.id);
		if (ev == POMP_EVENT_DISCONNECTED) { c.suspended = false; su.erase(&c); return; }
		act(cx, c, ev == POMP_EVENT_CONNECTED ? "in CONNECTED" : "in MSG");
	};
	w.on_raw = [&](Ctx &cx, Conn &c, struct pomp_buffer *) { act(cx, c, "in raw data"); };
	w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *, uint32_t) { act(cx, c, "in a report"); };
	ctx_start(y, ay);
	Sock *l = client ? simk::env_listen(ax) : nullptr;
	ctx_start(x, ax);
	if (client) { process(1); process(1); A.e = simk::env_accept(l); }
	else { A.e = simk::env_connect(ax); process(0); }
	B.e = simk::env_connect(ay); process(0); process(0);
	A.c = x.last(); B.c = y.last();
	MC_CHECK(A.e && A.c && B.c && A.e->peer == A.c->s, "not connected");
	A.c->s->cap = B.c->s->cap = 1 << 20; A.e->cap = 64;
	cfg.order = true; cfg.partial = true; cfg.eagain = true;
	left = budget;
	bool bsus = false;
	for (int i = 0; i < depth; i++) {
		int op = pick(11, "operation");
		switch (op) {
		case 0: if (A.fin || A.reset) prune(); if (!A.rest.empty()) { peer_bytes(A.e, A.rest); A.rest.clear(); } else peer_send(A.e, payload(raw, id++, 20), raw); break;
		case 1: { /* two messages, the second one not complete */
			if (A.fin || A.reset || !A.rest.empty()) prune();
			Bytes m1 = payload(raw, id++, 15), m2 = payload(raw, id++, 30), all = m1 + m2;
			peer_expect(A.e, m1, raw); if (raw) peer_expect(A.e, m2.substr(0, 10), raw); else peer_expect(A.e, m2, raw);
			peer_bytes(A.e, all.substr(0, 25)); A.rest = raw ? Bytes() : all.substr(25); break; }
		case 2: suspend(*A.c); break;
		case 3: resume(*A.c); break;
		case 4: process(0); break;
		case 5: if (A.reset || !A.c->live) prune(); csend(*A.c, payload(raw, id++, 50)); break;
		case 6: if (A.reset) prune(); peer_read(A.e, A.c->acc); break;
		case 7: if (B.e->peer) peer_send(B.e, mkmsg(id++, 20)); break;
		case 8: if (A.fin || A.reset || !A.rest.empty()) prune(); note("  the peer ends its sending"); simk::env_shutdown_wr(A.e); A.fin = true; break;
		case 9: if (A.reset) prune(); note("  the peer resets"); A.c->lossy = true; simk::env_reset(A.e); A.reset = true; break;
		case 10: { if (!A.c->live) prune(); size_t n = 7; int r = pomp_conn_set_read_buffer_len(A.c->p, n); MC_CHECK(r == 0, "set_read_buffer_len returned %d", r); note("  read buffer of 7 bytes"); break; }
		}
		nothing_read();
		if (!A.c->live) break;
	}
	cfg.order = cfg.partial = cfg.eagain = false;
	left = 0;
	/* others go on, sending goes on */
	if (B.c->suspended) resume(*B.c);
	for (int i = 0; i < 12; i++) { process(0); if (!A.reset) peer_read(A.e, A.c->acc); }
	due(*B.c);
	nothing_read();
	if (A.c->live && !A.reset) MC_CHECK(w.wire[A.e] == A.c->acc, "suspending kept %zu bytes from being sent", A.c->acc.size() - w.wire[A.e].size());
	if (A.reset) MC_CHECK(!A.c->live, "the reset of a connection is not noticed%s", A.c->suspended ? " while it is suspended" : "");
	if (!A.c->suspended && A.c->live && A.rest.empty() && !A.reset) due(*A.c);
	if (!A.c->suspended && A.fin) MC_CHECK(!A.c->live, "the end of the connection was not noticed");
	/* after resuming nothing is missing, and the end is noticed */
	if (A.c->live) {
		if (A.c->suspended) resume(*A.c);
		if (!A.rest.empty()) { peer_bytes(A.e, A.rest); A.rest.clear(); }
		settle();
		if (A.fin) MC_CHECK(!A.c->live, "the end of the connection was not noticed after it was resumed");
		due(*A.c);
	}
	if (!A.reset && A.c->live && A.e->refs > 0) {
		peer_read(A.e, A.c->acc);
		peer_send(A.e, payload(raw, id++, 20), raw); settle(); due(*A.c);
	}
	/* a new connection is not suspended */
	if (A.reset || A.fin) {
		if (client) { process(2100); process(1); process(1); Sock *e = simk::env_accept(l); MC_CHECK(e && x.last(), "the client does not connect again"); peer_send(e, payload(raw, id++, 20), raw); settle(); due(*x.last()); simk::env_close(e); }
		else { Sock *e = simk::env_connect(ax); MC_CHECK(e, "refused"); process(0); MC_CHECK(x.last(), "not announced"); peer_send(e, payload(raw, id++, 20), raw); settle(); due(*x.last()); simk::env_close(e); }
	}
	if (!A.reset) simk::env_close(A.e);
	simk::env_close(B.e); if (l) simk::env_close(l);
	finish();
}
static void c22_ops() { c22_main(false, thorough() ? 5 : 4, 0); }
static void c22_ops_raw() { c22_main(true, thorough() ? 5 : 3, 0); }
static void c22_callbacks() { c22_main(pick(2, "raw"), 3, thorough() ? 3 : 2); }

/* several connections ready at once: each one's callback may suspend the next ones */
static void c22_cross()
{
	World w; W = &w; std::map<Conn *, uint64_t> su; SUSP = &su;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Ctx &x = mkctx(SERVER, raw, false);
	int left = 0; uint32_t id = 1;
	std::vector<Peer> P(3);
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) {
		if (ev == POMP_EVENT_DISCONNECTED) { MC_CHECK(!c.suspended || x.stopping, "conn %d ended while suspended", c.id); su.erase(&c); return; }
		if (ev != POMP_EVENT_MSG || left <= 0) return;
		nothing_read();
		int k = pick(7, "in MSG"); if (!k) return; left--; k--;
		Conn *t = P[k % 3].c; if (!t || !t->live) prune();
		if (k < 3) suspend(*t); else resume(*t);
	};
	w.on_raw = [&](Ctx &, Conn &, struct pomp_buffer *) {
		if (left <= 0) return;
		nothing_read();
		int k = pick(7, "in raw data"); if (!k) return; left--; k--;
		Conn *t = P[k % 3].c; if (!t || !t->live) prune();
		if (k < 3) suspend(*t); else resume(*t);
	};
	ctx_start(x, addr_of(w.fam));
	for (auto &p : P) { p.e = simk::env_connect(x.addr); settle(); p.c = x.last(); }
	cfg.order = true;
	left = thorough() ? 4 : 3;
	for (int round = 0; round < 2; round++) {
		for (auto &p : P) if (!round || pick(2, "sends again")) { peer_send(p.e, payload(raw, id++, 20), raw); if (!round) peer_send(p.e, payload(raw, id++, 15), raw); }
		process(0); nothing_read();
		settle(); nothing_read();
		for (auto &p : P) if (!p.c->suspended) due(*p.c);
	}
	left = 0;
	for (auto &p : P) if (p.c->suspended) { resume(*p.c); }
	settle();
	for (auto &p : P) due(*p.c);
	for (auto &p : P) simk::env_close(p.e);
	settle();
	for (auto &p : P) MC_CHECK(!p.c->live, "the end of conn %d was not noticed", p.c->id);
	finish();
}

/* a datagram context */
static void c22_dgram()
{
	World w; W = &w; std::map<Conn *, uint64_t> su; SUSP = &su;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_INET6 : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Ctx &x = mkctx(DGRAM, raw, false);
	Addr a = addr_of(w.fam), from = w.fam == AF_INET ? simk::in4(INADDR_LOOPBACK, 7000) : simk::in6(7000);
	std::deque<Bytes> expect; int left = 0; uint32_t id = 1;
	struct pomp_conn *pc = nullptr; bool susp = false; uint64_t mark = 0; Sock *s = nullptr;
	auto chk = [&] { if (susp) MC_CHECK(s->nread == mark, "read while suspended"); };
	auto toggle = [&](int k) { chk(); int r = k ? pomp_conn_suspend_read(pc) : pomp_conn_resume_read(pc); note("  %s = %d", k ? "suspend" : "resume", r); MC_CHECK(r == 0, "suspend or resume returned %d", r); if (k && !susp) mark = s->nread; susp = k; };
	auto got = [&](Conn &c, const Bytes &b) {
		pc = c.p; s = c.s; chk();
		MC_CHECK(!susp, "a datagram is delivered while reading is suspended");
		MC_CHECK(!expect.empty() && expect.front() == b, "datagram %s delivered, expected %s", ref::hexs(b), expect.empty() ? "none" : ref::hexs(expect.front()));
		expect.pop_front();
		if (left > 0 && pick(2, "suspends in the callback")) { left--; toggle(1); if (pick(2, "and resumes")) toggle(0); }
	};
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *m) { if (ev == POMP_EVENT_MSG) got(c, wire::msg_bytes(m)); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *b) { got(c, wire::buf_bytes(b)); };
	MC_CHECK(ctx_start(x, a) == 0, "cannot bind");
	auto peer = [&](size_t n) { Bytes m = payload(raw, id++, n); expect.push_back(m); simk::env_dgram(from, a, m.data(), m.size()); note("  a datagram of %zu bytes arrives", n); };
	peer(20); settle(); MC_CHECK(pc && expect.empty(), "not delivered");
	left = 3;
	for (int i = 0; i < (thorough() ? 7 : 5); i++) {
		switch (pick(5, "operation")) {
		case 0: peer(15); break;
		case 1: peer(30); peer(20); break;
		case 2: process(0); chk(); if (!susp) MC_CHECK(expect.empty(), "%zu datagrams not delivered", expect.size()); break;
		case 3: toggle(1); break;
		case 4: toggle(0); break;
		}
	}
	left = 0;
	settle(); chk();
	if (susp) toggle(0);
	settle();
	MC_CHECK(expect.empty(), "%zu datagrams are not delivered after resuming", expect.size());
	finish();
}

static Reg reg([] {
	add("C22", "ops", c22_ops, 0, 1);
	add("C22", "ops-raw", c22_ops_raw, 1, 1);
	add("C22", "callbacks", c22_callbacks, 0, 1);
	add("C22", "cross", c22_cross, 1, 2);
	add("C22", "dgram", c22_dgram, 0, 0);
});

/* C09: the library called from inside its callbacks */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
static void disconnect(Conn &c)
{
	update_all();
	c.shut = true;
	int r = pomp_conn_disconnect(c.p);
	note("  disconnect conn %d.%d = %d", c.x->id, c.id, r);
	MC_CHECK(r == 0, "pomp_conn_disconnect returned %d", r);
}

/* application objects that callbacks add and remove */
struct App {
	struct Item { int kind; int fd; struct pomp_evt *evt; struct pomp_timer *tm; int n; bool live; };
	std::deque<Item> items;
	bool dirty = false;
};
static App *A;
static void app_idle(void *ud) { App::Item &i = *(App::Item *)ud; MC_CHECK(i.live, "idle function called after it was removed"); i.n++; MC_CHECK(i.n == 1, "idle function called twice"); i.live = false; note("    idle function"); }
static void app_fd(int fd, uint32_t, void *ud) { App::Item &i = *(App::Item *)ud; MC_CHECK(i.live && i.fd == fd, "fd callback after the fd was removed"); i.n++; simk::env_eventfd_read(fd); note("    fd callback"); }
static void app_evt(struct pomp_evt *, void *ud) { App::Item &i = *(App::Item *)ud; MC_CHECK(i.live, "event callback after it was detached"); i.n++; note("    event callback"); }
static void app_timer(struct pomp_timer *, void *ud) { App::Item &i = *(App::Item *)ud; MC_CHECK(i.live, "timer callback after it was destroyed"); i.n++; note("    timer callback"); }
static void app_add(int kind)
{
	A->items.push_back({kind, -1, nullptr, nullptr, 0, true});
	App::Item &i = A->items.back();
	int r = 0;
	switch (kind) {
	case 0: r = pomp_loop_idle_add(W->loop, app_idle, &i); break;
	case 1: i.fd = simk::env_eventfd(); simk::env_eventfd_write(i.fd, 1); r = pomp_loop_add(W->loop, i.fd, POMP_FD_EVENT_IN, app_fd, &i); break;
	case 2: i.evt = pomp_evt_new(); MC_CHECK(i.evt, "no event"); r = pomp_evt_attach_to_loop(i.evt, W->loop, app_evt, &i); pomp_evt_signal(i.evt); MC_CHECK(pomp_evt_destroy(i.evt) == -EBUSY, "an attached event can be destroyed"); break;
	case 3: i.tm = pomp_timer_new(W->loop, app_timer, &i); MC_CHECK(i.tm, "no timer"); r = pomp_timer_set(i.tm, 1); break;
	}
	note("  adds application object %d = %d", kind, r);
	MC_CHECK(r == 0, "adding object of kind %d returned %d", kind, r);
}
static void app_remove(App::Item &i)
{
	int r = 0;
	switch (i.kind) {
	case 0: if (i.live) r = pomp_loop_idle_remove(W->loop, app_idle, &i); break;
	case 1: if (i.fd >= 0) { r = pomp_loop_remove(W->loop, i.fd); simk::env_close_fd(i.fd); i.fd = -1; } break;
	case 2: if (i.evt) { r = pomp_evt_detach_from_loop(i.evt, W->loop); MC_CHECK(r == 0, "pomp_evt_detach_from_loop returned %d", r); r = pomp_evt_destroy(i.evt); i.evt = nullptr; } break;
	case 3: if (i.tm) { r = pomp_timer_destroy(i.tm); i.tm = nullptr; } break;
	}
	note("  removes application object %d = %d", i.kind, r);
	MC_CHECK(r == 0, "removing object of kind %d returned %d", i.kind, r);
	i.live = false;
}

struct Side { Ctx *x; Sock *l = nullptr; std::vector<Sock *> e; Addr a; };

/* one of the things a callback may do; x and c: where the callback comes from */
static const int NOPS = 17;
static bool act_op(int op, Ctx &x, Conn *c, Ctx &other, uint32_t &id)
{
	auto usable = [](Conn *k) { return k && k->live && !k->shut && !k->s->hup && !k->x->stopping; };
	auto second = [&]() -> Conn * { for (Conn *k : x.live()) if (k != c) return k; return nullptr; };
	switch (op) {
	case 0: return false;
	case 1: if (!c || !c->live || c->shut || !c->fd) return false; disconnect(*c); break;
	case 2: { Conn *k = second(); if (!k || k->shut) return false; disconnect(*k); break; }
	case 3: if (!usable(c)) return false; csend(*c, payload(x.raw, id++, 15)); break;
	case 4: { Conn *k = second(); if (!usable(k)) return false; csend(*k, payload(x.raw, id++, 30)); break; }
	case 5: case 6: {
		Conn *k = op == 5 ? c : second(); if (!k || !k->live) return false;
		int r = pomp_conn_suspend_read(k->p); note("  suspend conn %d.%d = %d", x.id, k->id, r); MC_CHECK(r == 0, "pomp_conn_suspend_read returned %d", r); k->suspended = true; break; }
	case 7: if (!c || !c->live || !c->suspended) { if (!c || !c->live) return false; }
		{ int r = pomp_conn_resume_read(c->p); note("  resume conn %d.%d = %d", x.id, c->id, r); MC_CHECK(r == 0, "pomp_conn_resume_read returned %d", r); c->suspended = false; } break;
	case 8: case 9: { Conn *k = op == 8 ? c : second(); if (!k || !k->live) return false; size_t n = op == 8 ? 7 : 5000; int r = pomp_conn_set_read_buffer_len(k->p, n); note("  read buffer of conn %d.%d = %zu: %d", x.id, k->id, n, r); MC_CHECK(r == 0, "pomp_conn_set_read_buffer_len returned %d", r); break; }
	case 10: if (!x.running || x.stopping) return false; ctx_stop(x); break;
	case 11: if (!other.p || !other.running || other.stopping) return false; ctx_stop(other); break;
	case 12: { int r = pomp_ctx_destroy(x.p); note("  destroy = %d", r); MC_CHECK(r == -EBUSY, "a running context could be destroyed in its callback (%d)", r); ctx_start(x, x.addr); break; }
	case 13: case 14: case 15: case 16: { int k = op - 13; App::Item *f = nullptr; for (auto &i : A->items) if (i.kind == k && (k == 0 ? i.live : i.live)) f = &i; if (f) app_remove(*f); else app_add(k); break; }
	}
	return true;
}
/* two contexts with two connections each, every callback may do something */
static void c09_inner(int budget_, bool sockets)
{
	World w; W = &w; App app; A = &app;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	bool client = pick(2, "client");
	uint32_t id = 1;
	int left = 0;
	Ctx &x = mkctx(client ? CLIENT : SERVER, raw, true, sockets), &y = mkctx(SERVER, false, true, sockets);
	Addr ax = addr_of(w.fam, 0), ay = addr_of(w.fam, 2);
	Ctx *tx = nullptr;
	auto act = [&](Ctx &cx, Conn *c, const char *what) {
		if (left <= 0) return;
		int op = pick(NOPS, what);
		if (!op) return;
		left--;
		if (!act_op(op, cx, c, &cx == &x ? y : x, id)) prune();
	};
	w.on_event = [&](Ctx &cx, Conn &c, int ev, const struct pomp_msg *m) {
		Bytes before = m ? wire::msg_bytes(m) : Bytes();
		act(cx, &c, ev == POMP_EVENT_CONNECTED ? "in CONNECTED" : ev == POMP_EVENT_MSG ? "in MSG" : "in DISCONNECTED");
		if (m) MC_CHECK(wire::msg_bytes(m) == before, "the message changed during its callback");
	};
	w.on_raw = [&](Ctx &cx, Conn &c, struct pomp_buffer *b) {
		Bytes before = wire::buf_bytes(b);
		act(cx, &c, "in raw data");
		MC_CHECK(wire::buf_bytes(b) == before, "the data changed during its callback");
	};
	w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *b, uint32_t) {
		Bytes before = wire::buf_bytes(b);
		act(cx, &c, "in a report");
		MC_CHECK(wire::buf_bytes(b) == before, "the buffer changed during its callback");
	};
	if (sockets) w.on_sock = [&](Ctx &cx, int, int) { act(cx, nullptr, "in the socket callback"); };
	if (sockets) left = budget_;
	Sock *l = client ? simk::env_listen(ax) : nullptr;
	std::vector<Sock *> es; Sock *ey = nullptr;
	ctx_start(y, ay);
	w.mayfail = sockets;
	if (sockets && !client && pick(2, "bind fails")) simk::bind_policy = [&](Sock *, const Addr &b) { return b == ax ? EACCES : 0; };
	ctx_start(x, ax);
	if (client) { for (int i = 0; i < 3; i++) process(1); while (Sock *e = simk::env_accept(l)) es.push_back(e); }
	else for (int i = 0; i < 2; i++) if (Sock *e = simk::env_connect(ax)) es.push_back(e);
	ey = simk::env_connect(ay);
	process(0);
	if (!sockets) left = budget_;
	/* CONNECTED was not covered above when the budget came later */
	if (!client && !sockets) if (Sock *e = x.running && !x.stopping ? simk::env_connect(ax) : nullptr) es.push_back(e);
	process(0);
	/* three messages at once, the third cut; the second connection has one as well */
	Bytes m1 = payload(raw, 101, 12), m2 = payload(raw, 102, 40), m3 = payload(raw, 103, 25);
	if (!es.empty() && es[0]->peer) { for (const Bytes *m : {&m1, &m2, &m3}) peer_expect(es[0], *m, raw); Bytes all = m1 + m2 + m3; peer_bytes(es[0], all.substr(0, 60)); }
	if (es.size() > 1 && es[1]->peer) peer_send(es[1], payload(raw, 104, 20), raw);
	if (ey && ey->peer) peer_send(ey, payload(false, 105, 20), false);
	if (Conn *c = x.last()) if (c->live && !c->shut && !c->s->hup && x.running && !x.stopping) csend(*c, payload(raw, id++, 20));
	process(0);
	if (!es.empty() && es[0]->peer) { Bytes all = m1 + m2 + m3; peer_bytes(es[0], all.substr(60)); peer_send(es[0], payload(raw, 106, 14), raw); }
	for (int i = 0; i < 4; i++) process(0);
	/* what was suspended is resumed: everything must come in the end */
	left = 0;
	auto resume_all = [&] { for (auto &cx : w.ctxs) if (cx->running && !cx->stopping) for (Conn *c : cx->live()) if (c->suspended) { c->suspended = false; int r = pomp_conn_resume_read(c->p); MC_CHECK(r == 0, "pomp_conn_resume_read returned %d", r); note("  resume conn %d.%d", cx->id, c->id); } };
	resume_all();
	settle();
	for (auto &cx : w.ctxs) {
		if (cx->p) check_conns(*cx);
		for (Conn *c : cx->live()) {
			Rx &r = w.rx[c->s];
			MC_CHECK(r.msgs.empty() && r.raw.empty(), "%zu messages (%zu raw bytes) of conn %d.%d were never delivered", r.msgs.size(), r.raw.size(), cx->id, c->id);
			if (!c->shut) MC_CHECK(c->nextrep == c->sends.size(), "%zu sends of conn %d.%d were never reported", c->sends.size() - c->nextrep, cx->id, c->id);
		}
	}
	/* what callbacks sent has arrived */
	auto readall = [&](Sock *e) { Conn *c = e->peer ? conn_of(e->peer) : nullptr; if (c) { peer_read(e, c->acc); if (c->live && !c->shut) MC_CHECK(w.wire[e].size() == c->acc.size(), "sent bytes did not arrive"); } };
	for (Sock *e : es) readall(e);
	if (ey) readall(ey);
	for (auto &i : app.items) {
		if (i.kind == 0) { if (i.live) MC_CHECK(i.n == 1, "idle function never called"); }
		if (i.kind == 1 || i.kind == 2) if (i.live) MC_CHECK(i.n == 1, "pending object of kind %d was called %d times", i.kind, i.n);
	}
	process(2);
	for (auto &i : app.items) if (i.kind == 3 && i.live) MC_CHECK(i.n == 1, "timer called %d times", i.n);
	/* the end of the connections, with callbacks doing things */
	left = sockets ? 0 : pick(2, "disconnection");
	if (left) { for (Sock *e : es) simk::env_close(e); process(0); process(0); process(0); }
	left = 0;
	resume_all();
	settle();
	if (!es.empty() && client && x.running && !x.stopping && !x.live().empty() && x.last()->shut) ;
	for (auto &i : app.items) app_remove(i);
	for (Sock *e : es) simk::env_close(e);
	if (ey) simk::env_close(ey);
	if (l) simk::env_close(l);
	settle();
	for (auto &cx : w.ctxs) MC_CHECK(cx->live().empty() || cx->type == CLIENT, "connections are left that no peer has");
	outcome(x.nmsg * 64 + x.ncon * 8 + y.nmsg);
	finish();
}
static void c09_ops() { c09_inner(2, false); }
static void c09_ops3() { c09_inner(3, false); }
static void c09_sock() { c09_inner(thorough() ? 3 : 2, true); }

/* callbacks of the loop act on contexts whose own events are pending in the same round */
static void c09_loopcb()
{
	World w; W = &w; App app; A = &app;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	uint32_t id = 1;
	Addr ax = addr_of(w.fam, 0), ay = addr_of(w.fam, 2);
	int src = pick(4, "callback");
	static struct S { std::function<void()> fn; int fd; struct pomp_evt *evt; struct pomp_timer *tm; bool inside; } s;
	s = S(); s.fd = -1; 
	auto arm = [&] {
		switch (src) {
		case 0: pomp_loop_idle_add(w.loop, [](void *) { s.inside = true; s.fn(); s.inside = false; }, &s); break;
		case 1: s.fd = simk::env_eventfd(); simk::env_eventfd_write(s.fd, 1); pomp_loop_add(w.loop, s.fd, POMP_FD_EVENT_IN, [](int fd, uint32_t, void *) { simk::env_eventfd_read(fd); s.inside = true; s.fn(); s.inside = false; }, &s); break;
		case 2: s.evt = pomp_evt_new(); pomp_evt_attach_to_loop(s.evt, w.loop, [](struct pomp_evt *, void *) { s.inside = true; s.fn(); s.inside = false; }, &s); pomp_evt_signal(s.evt); break;
		case 3: s.tm = pomp_timer_new(w.loop, [](struct pomp_timer *, void *) { s.inside = true; s.fn(); s.inside = false; }, &s); pomp_timer_set(s.tm, 1); simk::advance(2 * MS); break;
		}
	};
	bool first = pick(2, "registered first");
	if (first) arm();
	Ctx *x = &mkctx(SERVER, raw, true), *y = &mkctx(CLIENT, false, true);
	ctx_start(*x, ax);
	Sock *l = simk::env_listen(ay);
	int state = pick(3, "client");     /* connecting, connected, lost */
	ctx_start(*y, ay);
	if (!first) { if (state) { process(1); process(1); } }
	std::vector<Sock *> es;
	for (int i = 0; i < 2; i++) if (Sock *e = simk::env_connect(ax)) es.push_back(e);
	if (!first) process(0);
	Sock *ey = nullptr;
	if (!first && state) { ey = simk::env_accept(l); }
	if (!first) arm();
	if (es.size() && es[0]->peer) { peer_send(es[0], payload(raw, 50, 20), raw); peer_send(es[0], payload(raw, 51, 20), raw); }
	if (es.size() > 1) { if (pick(2, "second closes")) { simk::env_close(es[1]); es.pop_back(); } else peer_send(es[1], payload(raw, 52, 20), raw); }
	if (ey) { if (state == 2) { simk::env_close(ey); ey = nullptr; } else peer_send(ey, payload(false, 53, 20), false); }
	Sock *late = simk::env_connect(ax); if (late) es.push_back(late);
	cfg.order = true;
	int calls = 0;
	s.fn = [&] {
		if (calls++) return;
		int n = thorough() ? 3 : 2;
		for (int i = 0; i < n; i++) {
			switch (pick(12, "operation")) {
			case 0: return;
			case 1: if (!x->p || !x->running) prune(); ctx_stop(*x); break;
			case 2: if (!y->p || !y->running) prune(); ctx_stop(*y); break;
			case 3: if (!x->p || x->running) prune(); ctx_destroy(*x); break;
			case 4: if (!y->p || y->running) prune(); ctx_destroy(*y); break;
			case 5: if (!x->p || x->running) prune(); ctx_start(*x, ax); break;
			case 6: if (!y->p || y->running) prune(); ctx_start(*y, ay); break;
			case 7: { Conn *c = x->last(); if (!c || c->shut) prune(); disconnect(*c); break; }
			case 8: { Conn *c = x->last(); if (!c || c->shut || c->s->hup) prune(); csend(*c, payload(raw, id++, 30)); break; }
			case 9: { Conn *c = x->last(); if (!c) prune(); MC_CHECK(pomp_conn_set_read_buffer_len(c->p, 9) == 0, "pomp_conn_set_read_buffer_len failed"); note("  small read buffer"); break; }
			case 10: { Conn *c = x->last(); if (!c) prune(); MC_CHECK(pomp_conn_suspend_read(c->p) == 0, "pomp_conn_suspend_read failed"); c->suspended = true; note("  suspend"); break; }
			case 11:
				if (s.fd >= 0) { pomp_loop_remove(w.loop, s.fd); simk::env_close_fd(s.fd); s.fd = -1; }
				else if (s.evt) { MC_CHECK(pomp_evt_detach_from_loop(s.evt, w.loop) == 0, "detach failed"); MC_CHECK(pomp_evt_destroy(s.evt) == 0, "destroy failed"); s.evt = nullptr; }
				else if (s.tm) { MC_CHECK(pomp_timer_destroy(s.tm) == 0, "destroy failed"); s.tm = nullptr; }
				else prune();
				note("  removes its own object");
				break;
			}
		}
	};
	for (int i = 0; i < 3; i++) process(1);
	MC_CHECK(calls == 1, "the callback was called %d times", calls);
	for (auto &cx : w.ctxs) if (cx->p && cx->running) for (Conn *c : cx->live()) if (c->suspended) { c->suspended = false; MC_CHECK(pomp_conn_resume_read(c->p) == 0, "pomp_conn_resume_read failed"); }
	settle();
	for (uint64_t end = now() + 5000 * MS; now() < end;) process(500);
	settle();
	for (auto &cx : w.ctxs) {
		if (cx->p) check_conns(*cx);
		for (Conn *c : cx->live()) { Rx &r = w.rx[c->s]; MC_CHECK(r.msgs.empty() && r.raw.empty(), "data of conn %d.%d was never delivered", cx->id, c->id); if (!c->shut && !c->s->hup) MC_CHECK(c->nextrep == c->sends.size(), "sends were never reported"); }
	}
	if (y->p && y->running) MC_CHECK(y->last(), "the client is not connected to the server that is there");
	if (s.fd >= 0) { pomp_loop_remove(w.loop, s.fd); simk::env_close_fd(s.fd); }
	if (s.evt) { pomp_evt_detach_from_loop(s.evt, w.loop); pomp_evt_destroy(s.evt); }
	if (s.tm) pomp_timer_destroy(s.tm);
	for (Sock *e : es) simk::env_close(e);
	if (ey) simk::env_close(ey);
	simk::env_close(l);
	s.fn = nullptr;
	finish();
}
/* several reports are pending when something makes the library deliver them; every report may do something */
static void c09_reports()
{
	World w; W = &w; App app; A = &app;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw"), client = pick(2, "client");
	bool small = pick(2, "small socket");
	if (small) cfg.cap = 50;
	uint32_t id = 1;
	int left = 0;
	Ctx &x = mkctx(client ? CLIENT : SERVER, raw, true), &y = mkctx(SERVER, false, true);
	Addr ax = addr_of(w.fam, 0), ay = addr_of(w.fam, 2);
	auto act = [&](Ctx &cx, Conn *c, const char *what) {
		if (left <= 0) return;
		int op = pick(13, what);
		if (!op) return;
		left--;
		if (!act_op(op, cx, c, &cx == &x ? y : x, id)) prune();
	};
	w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *b, uint32_t) {
		Bytes before = wire::buf_bytes(b);
		act(cx, &c, "in a report");
		MC_CHECK(wire::buf_bytes(b) == before, "the buffer changed during its callback");
	};
	Sock *l = client ? simk::env_listen(ax) : nullptr;
	std::vector<Sock *> es;
	ctx_start(y, ay); ctx_start(x, ax);
	if (client) { for (int i = 0; i < 3; i++) process(1); while (Sock *e = simk::env_accept(l)) es.push_back(e); }
	else for (int i = 0; i < 2; i++) if (Sock *e = simk::env_connect(ax)) es.push_back(e);
	if (Sock *e = simk::env_connect(ay)) es.push_back(e);
	process(0); process(0);
	MC_CHECK(x.last() && y.last(), "not connected");
	int n = 1 + pick(3, "sends");
	for (int i = 0; i < n; i++) csend(*x.last(), payload(raw, id++, 20 + 5 * i));
	csend(*y.last(), payload(false, id++, 20));
	left = thorough() ? 3 : 2;
	int how = pick(5, "what delivers the reports");
	switch (how) {
	case 0: process(0); break;
	case 1: disconnect(*x.last()); break;
	case 2: ctx_stop(x); break;
	case 3: simk::env_close(es[client ? 0 : 1]); es.erase(es.begin() + (client ? 0 : 1)); process(0); break;
	case 4: { static Conn *k; k = x.last(); pomp_loop_idle_add(w.loop, [](void *) { if (k->live && !k->shut && !k->x->stopping) disconnect(*k); }, &k); process(0); break; }
	}
	if (x.p && x.running && !x.depth && !x.stopping) check_conns(x);
	for (int i = 0; i < 4; i++) process(0);
	left = 0;
	for (auto &cx : w.ctxs) if (cx->running && !cx->stopping) for (Conn *c : cx->live()) if (c->suspended) { c->suspended = false; MC_CHECK(pomp_conn_resume_read(c->p) == 0, "resume failed"); }
	settle();
	/* what was accepted goes out while the peer reads */
	for (int i = 0; i < 8; i++) { for (Sock *e : es) { Conn *c = e->peer ? conn_of(e->peer) : nullptr; if (c) peer_read(e, c->acc); } settle(); }
	for (Sock *e : es) { Conn *c = e->peer ? conn_of(e->peer) : nullptr; if (c && c->live && !c->shut) { MC_CHECK(w.wire[e].size() == c->acc.size(), "sent bytes did not arrive"); MC_CHECK(c->nextrep == c->sends.size(), "sends were never reported"); } }
	for (Sock *e : es) simk::env_close(e);
	if (l) simk::env_close(l);
	settle();
	for (auto &cx : w.ctxs) MC_CHECK(cx->live().empty() || cx->type == CLIENT, "connections are left that no peer has");
	outcome(how * 64 + x.nrep * 8 + y.nrep);
	finish();
}
/* datagram contexts */
static void c09_dgram()
{
	World w; W = &w; App app; A = &app;
	w.poll = pick(2, "loop implementation");
	w.fam = AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Ctx &x = mkctx(DGRAM, raw, true, true), &y = mkctx(DGRAM, false, true, true);
	Addr ax = addr_of(w.fam, 0), ay = addr_of(w.fam, 2), b = addr_of(w.fam, 7);
	uint32_t id = 1; int left = thorough() ? 3 : 2;
	auto act = [&](Ctx &cx, Conn *c, const char *what) {
		if (left <= 0) return;
		int op = pick(12, what);
		if (!op) return;
		left--;
		Ctx &other = &cx == &x ? y : x;
		switch (op) {
		case 1: if (!c || !c->p || cx.stopping) prune(); dsend(cx, payload(cx.raw, id++, 20), b); break;
		case 2: if (!c || !c->p || cx.stopping || std::string(what) == "in a report") prune(); dsend(cx, payload(cx.raw, id++, 20), b, true); break;
		case 3: if (cx.stopping) prune(); ctx_stop(cx); break;
		case 4: if (!other.running || other.stopping) prune(); ctx_stop(other); break;
		case 5: { int r = pomp_ctx_destroy(cx.p); MC_CHECK(r == -EBUSY, "a running context could be destroyed in its callback (%d)", r); ctx_start(cx, cx.addr); break; }
		case 6: if (!c || !c->p) prune(); MC_CHECK(pomp_conn_set_read_buffer_len(c->p, 100) == 0, "pomp_conn_set_read_buffer_len failed"); note("  read buffer resized"); break;
		case 7: if (!c || !c->p) prune(); MC_CHECK(pomp_conn_suspend_read(c->p) == 0, "suspend failed"); c->suspended = true; note("  suspend"); break;
		case 8: if (!c || !c->p) prune(); MC_CHECK(pomp_conn_disconnect(c->p) == -ENOTCONN, "a datagram context could be disconnected"); break;
		case 9: app_add(0); break;
		case 10: app_add(2); break;
		case 11: if (app.items.empty()) prune(); app_remove(app.items.back()); break;
		}
	};
	w.on_event = [&](Ctx &cx, Conn &c, int, const struct pomp_msg *) { act(cx, &c, "in MSG"); };
	w.on_raw = [&](Ctx &cx, Conn &c, struct pomp_buffer *) { act(cx, &c, "in raw data"); };
	w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *, uint32_t) { act(cx, &c, "in a report"); };
	w.on_sock = [&](Ctx &cx, int, int) { act(cx, nullptr, "in the socket callback"); };
	ctx_start(x, ax); ctx_start(y, ay);
	process(0);
	int due = 0;
	for (int i = 0; i < 3; i++) { Bytes m = payload(raw, 60 + i, 20); simk::env_dgram(b, ax, m.data(), m.size()); if (x.running && !x.stopping) due++; }
	Bytes m = payload(false, 70, 20); simk::env_dgram(b, ay, m.data(), m.size());
	process(0); settle();
	left = 0;
	for (auto &cx : w.ctxs) for (Conn *c : cx->live()) if (c->suspended && cx->running && !cx->stopping) { c->suspended = false; MC_CHECK(pomp_conn_resume_read(c->p) == 0, "resume failed"); }
	settle();
	if (x.running && !x.stopping) MC_CHECK(x.nmsg == due, "%d datagrams were delivered instead of %d", x.nmsg, due);
	for (auto &cx : w.ctxs) if (cx->running && !cx->stopping) for (Conn *c : cx->live()) MC_CHECK(c->nextrep == c->sends.size(), "sends were never reported");
	for (auto &i : app.items) app_remove(i);
	finish();
}
/* every report sends again: nothing that ends the connection may go on for ever */
static void c09_again()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	int kind = pick(4, "kind");   /* server and client, server and datagrams; unix or inet */
	bool dg = kind == 3, client = kind == 2;
	w.fam = kind == 1 ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	if (!dg && pick(2, "small socket")) cfg.cap = 50;
	Addr ax = addr_of(w.fam, 0), b = addr_of(w.fam, 7);
	Ctx &x = mkctx(dg ? DGRAM : client ? CLIENT : SERVER, raw, true);
	uint32_t id = 1; int nrep = 0, n = 1 + pick(3, "sends");
	bool more = true;
	w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *, uint32_t) {
		MC_CHECK(++nrep < 200, "endless reports while something is ended");
		if (!more) return;
		if (!dg) csend(c, payload(raw, id++, 20));
		else if (c.p) dsend(cx, payload(raw, id++, 20), b);
	};
	Sock *l = client ? simk::env_listen(ax) : nullptr, *e = nullptr;
	ctx_start(x, ax);
	if (client) { for (int i = 0; i < 3 && !e; i++) { process(1); e = simk::env_accept(l); } }
	else if (!dg) e = simk::env_connect(ax);
	process(0); process(0);
	for (int i = 0; i < n; i++) if (dg) dsend(x, payload(raw, id++, 20), b); else csend(*x.last(), payload(raw, id++, 20));
	for (int i = pick(3, "rounds before"); i > 0; i--) process(0);
	int how = pick(4, "what ends it");
	switch (how) {
	case 0: ctx_stop(x); break;
	case 1: if (dg) prune(); disconnect(*x.last()); break;
	case 2: if (dg) prune(); simk::env_close(e); e = nullptr; break;
	case 3: { static Ctx *k; k = &x; pomp_loop_idle_add(w.loop, [](void *) { ctx_stop(*k); }, &k); break; }
	}
	for (int i = 0; i < 6; i++) process(0);
	more = false;
	if (e) simk::env_close(e);
	if (l) simk::env_close(l);
	settle();
	for (Conn *c : x.live()) if (!c->shut && x.running && !x.stopping) MC_CHECK(dg, "the connection is left");
	outcome(how * 64 + nrep);
	finish();
}
static Reg r([] {
	add("C09", "ops", c09_ops);
	add("C09", "again", c09_again);
	add("C09", "ops3", c09_ops3, 0, 0, true);
	add("C09", "sockets", c09_sock);
	add("C09", "loop", c09_loopcb, 0, 1);
	add("C09", "reports", c09_reports);
	add("C09", "dgram", c09_dgram);
});

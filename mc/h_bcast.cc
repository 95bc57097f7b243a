/* C21: what a server sends to all its clients */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

struct Cl { Sock *e; Sock *l = nullptr; Conn *c = nullptr; bool open = true, reads = true; };
static std::deque<Cl> *CL;
static std::set<Conn *> *ENDING;

static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
/* what must become of a send on c, known from the state of its socket */
static bool accepts(Conn &c)
{
	if (c.shut) return false;
	if (c.s->nwritten < c.acc.size()) return true;       /* queued behind earlier data */
	if (c.s->wrshut) return false;
	if (c.s->domain == AF_UNIX) return !c.s->hup && c.s->peer;
	return !c.s->so_error && !c.s->rst;
}
static void broadcast(Ctx &x, uint32_t id, size_t n, int how)
{
	Bytes m = payload(x.raw, id, how == 1 ? 12 : n);
	update_all();
	std::vector<Conn *> to; std::vector<uint64_t> w0;
	for (Conn *c : x.live()) if (!ENDING->count(c)) {
		if (!accepts(*c)) { note("  (conn %d takes nothing)", c->id); continue; }
		to.push_back(c); w0.push_back(c->s->nwritten);
		c->sends.push_back({m, nullptr, (uint64_t)c->acc.size() + m.size()}); c->acc += m;
	}
	std::vector<std::pair<Conn *, uint64_t>> others;
	for (auto &k : x.conns) if (k->live && std::find(to.begin(), to.end(), k.get()) == to.end()) others.push_back({k.get(), k->s->nwritten});
	int f0 = simk::faults_injected;
	int r;
	if (x.raw) {
		struct pomp_buffer *b; { simk::NoFault nf; b = pomp_buffer_new_with_data(m.data(), m.size()); }
		for (Conn *c : to) c->sends.back().buf = b;
		r = pomp_ctx_send_raw_buf(x.p, b);
		pomp_buffer_unref(b);
	} else if (how == 0) { struct pomp_msg *lm = libmsg(m); r = pomp_ctx_send_msg(x.p, lm); pomp_msg_destroy(lm); }
	else r = pomp_ctx_send(x.p, id, nullptr);
	note("  [%d] broadcast of %zu bytes to %zu clients = %d", x.id, m.size(), to.size(), r);
	MC_CHECK(r == 0, "a broadcast returned %d", r);
	for (auto &o : others) MC_CHECK(o.first->s->nwritten == o.second, "a connection that is not open for sending got a broadcast");
	for (size_t i = 0; i < to.size(); i++) {
		Conn *c = to[i];
		/* an injected failure of its write: this client did not get it */
		if (simk::faults_injected > f0 && c->s->fin && c->s->nwritten == w0[i]) { c->lossy = true; c->sends.pop_back(); c->acc.resize(c->acc.size() - m.size()); note("  (conn %d failed)", c->id); }
		observe(c->s->nwritten);
	}
	update_all();
}
/* clients read; those that are open for reading must end up with everything */
static void read_all(bool all = false)
{
	for (Cl &k : *CL) if (k.open && k.c && (all || k.reads)) peer_read(k.e, k.c->acc);
}
static void deliver(Ctx &x, bool slow_too)
{
	for (int i = 0;; i++) {
		process(0);
		read_all(slow_too);
		bool all = true; Cl *bad = nullptr;
		for (Cl &k : *CL) if (k.open && k.c && k.c->live && !k.c->shut && !k.c->lossy && (slow_too || k.reads) && W->wire[k.e].size() != k.c->acc.size()) { all = false; bad = &k; }
		if (all) break;
		MC_CHECK(i < 80, "a client got only %zu of %zu bytes although it reads", W->wire[bad->e].size(), bad->c->acc.size());
	}
	(void)x;
}
static void connected(Ctx &, Conn &c) { for (Cl &k : *CL) if (k.l == c.s) k.c = &c; }
static Cl *join(const Addr &a) { Sock *e = simk::env_connect(a); if (!e) return nullptr; CL->push_back(Cl{e}); CL->back().l = e->peer; note("  client %zu connects", CL->size() - 1); return &CL->back(); }

struct Setup {
	World w; std::deque<Cl> cl; std::set<Conn *> ending; Ctx *x; Addr a; uint32_t id = 1;
	Setup(bool raw, bool scb, int n, size_t cap) {
		W = &w; CL = &cl; ENDING = &ending;
		w.poll = pick(2, "loop implementation");
		w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
		begin(w); mkloop();
		a = addr_of(w.fam, 0);
		x = &mkctx(SERVER, raw, scb);
		hook(nullptr);
		MC_CHECK(ctx_start(*x, a) == 0, "cannot listen");
		cfg.cap = cap;
		for (int i = 0; i < n; i++) join(a);
		settle();
		for (Cl &k : cl) MC_CHECK(k.c, "a client is not announced");
	}
	std::function<void(Ctx &, Conn &, int)> extra;
	void hook(std::function<void(Ctx &, Conn &, int)> f) {
		extra = f;
		w.on_event = [this](Ctx &cx, Conn &c, int ev, const struct pomp_msg *) {
			if (ev == POMP_EVENT_CONNECTED) connected(cx, c);
			if (ev == POMP_EVENT_DISCONNECTED) { ending.insert(&c); for (struct pomp_conn *k = pomp_ctx_get_next_conn(cx.p, nullptr); k; k = pomp_ctx_get_next_conn(cx.p, k)) MC_CHECK(k != c.p, "a connection is listed in its own DISCONNECTED event"); }
			if (ev == POMP_EVENT_CONNECTED) { bool in = false; for (struct pomp_conn *k = pomp_ctx_get_next_conn(cx.p, nullptr); k; k = pomp_ctx_get_next_conn(cx.p, k)) in |= k == c.p; MC_CHECK(in, "a connection is not listed in its own CONNECTED event"); }
			if (extra) extra(cx, c, ev);
		};
	}
	void done() {
		for (Cl &k : cl) if (k.c && k.c->live && k.c->suspended) { pomp_conn_resume_read(k.c->p); k.c->suspended = false; }
		deliver(*x, true);
		settle(); read_all(true);
		for (Cl &k : cl) if (k.open && k.c && !k.c->lossy && !k.c->shut && k.c->live) MC_CHECK(w.wire[k.e] == k.c->acc, "a client did not get everything");
		if (x->sendcb) for (Cl &k : cl) if (k.c && k.c->live && !k.c->lossy) MC_CHECK(k.c->nextrep == k.c->sends.size(), "%zu sends were never reported", k.c->sends.size() - k.c->nextrep);
		check_conns(*x);
		for (Cl &k : cl) if (k.open) { simk::env_close(k.e); k.open = false; }
		finish();
	}
};

/* sequences of broadcasts, sends to one client, and things clients do */
static void c21_ops(bool raw, int depth)
{
	Setup s(raw, pick(2, "send callback"), 3, 64);
	cfg.partial = cfg.eagain = true;
	cfg.order = true;
	/* client 1 is slow: it reads only when told to */
	s.cl[1].reads = false;
	int how = 0;
	for (int i = 0; i < depth; i++) {
		switch (pick(11, "operation")) {
		case 0: broadcast(*s.x, s.id++, 15, 0); break;
		case 1: broadcast(*s.x, s.id++, 100, 0); break;
		case 2: case 3: { Cl &k = s.cl[i % 2]; if (k.c->live && accepts(*k.c) && !k.c->shut) csend(*k.c, payload(raw, s.id++, 40)); else prune(); break; }
		case 4: process(0); read_all(); break;
		case 5: if (s.cl[1].open) { note("  the slow client reads"); peer_read(s.cl[1].e, s.cl[1].c->acc, 30); } break;
		case 6: { Cl &k = s.cl[0]; if (!k.open) prune(); note("  client 0 closes"); if (k.c) k.c->lossy = true; simk::env_close(k.e); k.open = false; break; }
		case 7: { Cl &k = s.cl[1]; if (!k.open) prune(); note("  client 1 is reset"); k.c->lossy = true; simk::env_reset(k.e); k.open = false; break; }
		case 8: { Cl &k = s.cl[2]; if (!k.c->live || k.c->shut) prune(); k.c->shut = true; int r = pomp_conn_disconnect(k.c->p); note("  disconnect of client 2 = %d", r); MC_CHECK(r == 0, "disconnect returned %d", r); break; }
		case 9: if (s.cl.size() > 4) prune(); join(s.a); process(0); break;
		case 10: { Cl &k = s.cl[0]; if (!k.open || !k.c->live || k.c->suspended) prune(); int r = pomp_conn_suspend_read(k.c->p); note("  suspend of client 0 = %d", r); MC_CHECK(r == 0, "suspend returned %d", r); k.c->suspended = true; break; }
		}
		check_conns(*s.x);
		(void)how;
	}
	deliver(*s.x, false);
	s.done();
}
static void c21_ops_msg() { c21_ops(false, thorough() ? 5 : 3); }
static void c21_ops_raw() { c21_ops(true, thorough() ? 4 : 3); }

/* the order of what one client sees, every mix of sends and capacities */
static void c21_order()
{
	int depth = thorough() ? 7 : 5;
	Setup s(false, false, 2, pick(2, "capacity") ? 40 : 1000);
	s.cl[1].reads = false;
	for (int i = 0; i < depth; i++) {
		switch (pick(5, "operation")) {
		case 0: broadcast(*s.x, s.id++, 12, 1); break;
		case 1: broadcast(*s.x, s.id++, 50, 0); break;
		case 2: csend(*s.cl[0].c, payload(false, s.id++, 20)); break;
		case 3: csend(*s.cl[1].c, payload(false, s.id++, 20)); break;
		case 4: process(0); read_all(); break;
		}
	}
	deliver(*s.x, false);
	s.done();
}

/* calls from the callbacks of one client about the others */
static void c21_callbacks()
{
	Setup s(pick(2, "raw"), true, 3, 200);
	cfg.order = true;
	bool raw = s.x->raw;
	int left = 2;
	auto act = [&](Ctx &cx, Conn &c, const char *what) {
		if (left <= 0) return;
		int op = pick(6, what);
		if (!op) return;
		left--;
		Conn *o = nullptr; for (Conn *k : cx.live()) if (k != &c && !s.ending.count(k) && !k->shut) o = k;
		switch (op) {
		case 1: broadcast(cx, s.id++, 15, 0); break;
		case 2: broadcast(cx, s.id++, 150, 0); broadcast(cx, s.id++, 20, 0); break;
		case 3: if (!o || !accepts(*o)) prune(); csend(*o, payload(raw, s.id++, 20)); broadcast(cx, s.id++, 20, 0); break;
		case 4: if (!o) prune(); o->shut = true; { int r = pomp_conn_disconnect(o->p); note("  disconnect conn %d = %d", o->id, r); MC_CHECK(r == 0, "disconnect returned %d", r); } broadcast(cx, s.id++, 20, 0); break;
		case 5: if (s.ending.count(&c) || c.shut) prune(); c.shut = true; { int r = pomp_conn_disconnect(c.p); note("  disconnect conn %d = %d", c.id, r); MC_CHECK(r == 0, "disconnect returned %d", r); } broadcast(cx, s.id++, 20, 0); break;
		}
		int n = 0;
		for (struct pomp_conn *k = pomp_ctx_get_next_conn(cx.p, nullptr); k; k = pomp_ctx_get_next_conn(cx.p, k)) { Conn *f = cx.find(k); MC_CHECK(f && !s.ending.count(f), "the list has a connection that is not connected"); n++; }
		int m = 0; for (Conn *k : cx.live()) if (!s.ending.count(k)) m++;
		MC_CHECK(n == m, "the list has %d connections instead of %d", n, m);
	};
	s.hook([&](Ctx &cx, Conn &c, int ev) { act(cx, c, evname(ev)); });
	s.w.on_raw = [&](Ctx &cx, Conn &c, struct pomp_buffer *) { act(cx, c, "in raw data"); };
	s.w.on_send = [&](Ctx &cx, Conn &c, struct pomp_buffer *, uint32_t) { act(cx, c, "in a report"); };
	broadcast(*s.x, s.id++, 15, 0);
	peer_send(s.cl[0].e, payload(raw, 900, 20), raw);
	peer_send(s.cl[1].e, payload(raw, 901, 20), raw);
	process(0);
	join(s.a);
	note("  client 2 closes its side"); simk::env_shutdown_wr(s.cl[2].e);
	process(0); process(0);
	{ Cl &k = s.cl[0]; note("  client 0 closes"); if (k.c->live) { read_all(); k.c->lossy = true; simk::env_close(k.e); k.open = false; } }
	process(0); process(0);
	left = 0;
	broadcast(*s.x, s.id++, 15, 0);
	s.done();
}

/* failing writes and memory */
static void c21_faults()
{
	Setup s(false, false, 3, 64);
	s.w.lossy_ok = true;
	cfg.order = true;
	cfg.faults = simk::F_WRITE; cfg.maxfaults = 2;
	for (int i = 0; i < (thorough() ? 4 : 3); i++) {
		switch (pick(4, "operation")) {
		case 0: broadcast(*s.x, s.id++, 15, 0); break;
		case 1: broadcast(*s.x, s.id++, 90, 0); break;
		case 2: process(0); read_all(); break;
		case 3: { Cl &k = s.cl[1]; if (!k.c->live || k.c->lossy || k.c->shut) prune(); int f0 = simk::faults_injected; if (csend(*k.c, payload(false, s.id++, 20)) < 0) { MC_CHECK(simk::faults_injected > f0, "send failed"); k.c->lossy = true; } break; }
		}
		/* a failure while the queue is written ends the connection */
		for (Cl &k : s.cl) if (k.c->s->fin && k.c->live) k.c->lossy = true;
	}
	cfg.faults = 0;
	deliver(*s.x, false);
	s.done();
}

/* a full server, and every way to take clients out of the list */
static void c21_list()
{
	int n = thorough() ? 5 : 4;
	Setup s(false, false, n, 1000);
	std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
	int kind = pick(3, "how they go");
	while (!left.empty()) {
		broadcast(*s.x, s.id++, 15, 1);
		int i = pick((int)left.size(), "who goes");
		Cl &k = s.cl[left[i]];
		left.erase(left.begin() + i);
		read_all();
		if (kind == 0) { note("  a client closes"); simk::env_close(k.e); k.open = false; }
		else if (kind == 1) { k.c->shut = true; MC_CHECK(pomp_conn_disconnect(k.c->p) == 0, "disconnect failed"); }
		else { note("  a client is reset"); k.c->lossy = true; simk::env_reset(k.e); k.open = false; }
		check_conns(*s.x);
		settle();
		if (kind != 1) MC_CHECK(!k.c->live, "the end of a connection was not noticed");
		check_conns(*s.x);
		if (left.size() == 2 && pick(2, "another comes")) { join(s.a); settle(); check_conns(*s.x); }
	}
	broadcast(*s.x, s.id++, 15, 1);
	s.done();
}
static void c21_full()
{
	Setup s(false, false, 32, 1000);
	MC_CHECK(s.x->live().size() == 32, "only %zu of 32 clients connected", s.x->live().size());
	broadcast(*s.x, s.id++, 15, 1);
	Cl *k = join(s.a); settle();
	MC_CHECK(!k->c, "client number 33 is announced");
	MC_CHECK(k->e->fin || !k->e->peer, "client number 33 is kept waiting");
	simk::env_close(k->e); s.cl.pop_back();
	broadcast(*s.x, s.id++, 50, 0);
	int out = pick(32, "who goes");
	read_all();
	simk::env_close(s.cl[out].e); s.cl[out].open = false;
	settle();
	MC_CHECK(s.x->live().size() == 31, "%zu clients left of 31", s.x->live().size());
	k = join(s.a); settle();
	MC_CHECK(k->c, "a client is refused although there is room");
	broadcast(*s.x, s.id++, 15, 1);
	s.done();
}

static Reg reg([] {
	add("C21", "ops", c21_ops_msg, 1, 1);
	add("C21", "ops-raw", c21_ops_raw, 0, 1);
	add("C21", "order", c21_order, 0, 0);
	add("C21", "callbacks", c21_callbacks, 0, 1);
	add("C21", "faults", c21_faults, 2, 3);
	add("C21", "list", c21_list, 0, 0);
	add("C21", "full", c21_full, 0, 0);
});

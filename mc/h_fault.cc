/* C11: every single (and pairs of) failing system call or allocation */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

static const uint64_t SESSION_FAULTS = simk::F_ALL & ~(simk::F_TIMERFD_SETTIME | simk::F_TIMER_SETTIME | simk::F_PTHREAD);
static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
static void nothing_left(const char *when)
{
	MC_CHECK(simk::open_lib_fds() == 0, "%s descriptors are still open:%s", when, simk::describe_lib_fds().c_str());
	MC_CHECK(simk::lib_allocs() == 0, "%s memory is still allocated: %s", when, simk::describe_allocs().c_str());
}
struct Held {
	int fds; size_t mem;
	Held() { fds = simk::open_lib_fds(); mem = simk::lib_allocs(); }
	void same(const char *when) {
		MC_CHECK(simk::open_lib_fds() == fds, "%s the library holds %d descriptors instead of %d:%s", when, simk::open_lib_fds(), fds, simk::describe_lib_fds().c_str());
		MC_CHECK(simk::lib_allocs() == mem, "%s the library holds %zu heap blocks instead of %zu: %s", when, simk::lib_allocs(), mem, simk::describe_allocs().c_str());
	}
};
/* a call that may fail only if something was made to fail */
static int may(const char *what, int r, int f0)
{
	note("  %s = %d", what, r);
	MC_CHECK(r == 0 || (r < 0 && simk::faults_injected > f0), "%s returned %d although nothing failed", what, r);
	return r;
}
#define MAY(e) ([&] { int f0__ = simk::faults_injected; int r__ = (e); return may(#e, r__, f0__); }())

static void faults_on(uint64_t f = SESSION_FAULTS) { cfg.faults = f; }
static void faults_off() { cfg.faults = 0; }

static void newloop()
{
	Held h; int f0 = simk::faults_injected;
	W->loop = pomp_loop_new();
	if (W->loop) return;
	MC_CHECK(simk::faults_injected > f0, "pomp_loop_new failed although nothing failed");
	h.same("after a loop could not be created");
	simk::NoFault nf;
	mkloop();
}
static Ctx &newctx(Type t, bool raw)
{
	Held h; int f0 = simk::faults_injected;
	/* one that is thrown away, under faults */
	struct pomp_ctx *p = pick(2, "context with its own loop") ? pomp_ctx_new(ev_cb, nullptr) : pomp_ctx_new_with_loop(ev_cb, nullptr, W->loop);
	if (!p) { MC_CHECK(simk::faults_injected > f0, "pomp_ctx_new failed although nothing failed"); h.same("after a context could not be created"); }
	else { MC_CHECK(pomp_ctx_destroy(p) == 0, "pomp_ctx_destroy failed"); h.same("after a context was destroyed"); }
	simk::NoFault nf;
	return mkctx(t, raw, true, true);
}
static void start(Ctx &x, const Addr &a, unsigned mode = 0)
{
	Held h; int f0 = simk::faults_injected;
	int r = ctx_start(x, a, mode);
	if (r == 0) return;
	MC_CHECK(simk::faults_injected > f0, "start failed with %d although nothing failed", r);
	h.same("after a start that failed");
	r = ctx_start(x, a, mode);
	if (r == 0) return;
	h.same("after a start that failed");
	faults_off();
	r = ctx_start(x, a, mode);
	MC_CHECK(r == 0, "start failed with %d after an earlier failure", r);
	faults_on();
}
static void checked_msgs(Ctx &x)
{
	MC_CHECK(W->nlost <= simk::faults_injected, "%d messages lost by %d failures", W->nlost, simk::faults_injected);
	for (Conn *c : x.live()) {
		if (c->suspended) continue;
		auto &r = W->rx[c->s];
		MC_CHECK(r.raw.empty(), "%zu bytes that arrived on conn %d were not delivered", r.raw.size(), c->id);
		MC_CHECK((int)r.msgs.size() + W->nlost <= simk::faults_injected, "%zu messages that arrived on conn %d were not delivered with %d failures", r.msgs.size(), c->id, simk::faults_injected);
		r.msgs.clear();
	}
}
static void wait_ms(int ms) { for (int i = 0; i < ms; i += 500) process(500); }

/* how a context ends */
static void end_ctx(Ctx &x, int how, const std::function<void()> &trigger)
{
	if (how == 0) ctx_stop(x);
	else {
		/* stopped in the callback of a message */
		W->on_event = [&](Ctx &y, Conn &, int ev, const struct pomp_msg *) { if (&y == &x && ev == POMP_EVENT_MSG) ctx_stop(x); };
		W->on_raw = [&](Ctx &y, Conn &, struct pomp_buffer *) { if (&y == &x) ctx_stop(x); };
		trigger();
		for (int i = 0; i < 8; i++) process(0);
		W->on_event = nullptr; W->on_raw = nullptr;
		faults_off();
		settle();
		if (x.running) ctx_stop(x);      /* the stop in the callback may have failed */
		faults_on();
	}
	MC_CHECK(!x.running, "the context is not stopped");
}

static void f_server()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	int fam = pick(3, "address");
	w.fam = fam ? AF_UNIX : AF_INET;
	bool raw = pick(2, "raw");
	int how = pick(2, "stop in a callback");
	begin(w);
	w.lossy_ok = w.sends_unreported_ok = true;
	cfg.maxfaults = 2; cfg.cap = 160;
	faults_on();
	newloop();
	Ctx &x = newctx(SERVER, raw);
	faults_off(); process(0); faults_on();
	Held stopped_state;
	Addr a = addr_of(w.fam, fam == 2 ? 1 : 0);
	start(x, a, fam == 2 ? 0600 : 0);
	std::map<Sock *, Conn *> owner; uint32_t id = 1, rid = 500;
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) {
		if (ev == POMP_EVENT_CONNECTED) { owner[c.s->peer] = &c; csend(c, payload(raw, rid++, 16)); }
		if (ev == POMP_EVENT_MSG) { update_all(); csend(c, payload(raw, rid++, 40)); }
	};
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { csend(c, payload(raw, rid++, 40)); };
	if (!simk::find_listener(w.fam, SOCK_STREAM, a)) { wait_ms(5000); }
	std::vector<Sock *> es;
	auto connect1 = [&] { Sock *e = simk::env_connect(a); if (e) es.push_back(e); else MC_CHECK(cfg.faults && simk::faults_injected, "the server refuses connections"); return e; };
	Sock *e1 = connect1();
	process(0); process(0);
	Sock *e2 = connect1();
	if (e1) peer_send(e1, payload(raw, id++, 20), raw);
	if (e1) peer_send(e1, payload(raw, id++, 100), raw);
	for (int i = 0; i < 4; i++) process(0);
	/* more than the peers' sockets hold */
	for (int k = 0; k < 3; k++) for (Conn *c : x.live()) if (!c->s->hup) csend(*c, payload(raw, id++, 70));
	process(0);
	auto drain = [&] { for (int k = 0; k < 4; k++) { for (Sock *e : es) { if (owner.count(e)) peer_read(e, owner[e]->acc); else { Bytes b = simk::env_recv(e); MC_CHECK(b.empty(), "data from a connection that was never announced"); } } process(0); process(0); } };
	drain();
	if (e2 && e2->peer) { peer_send(e2, payload(raw, id++, 30), raw); }
	process(0);
	if (Conn *c = x.last()) { pomp_conn_suspend_read(c->p); pomp_conn_resume_read(c->p); pomp_conn_set_read_buffer_len(c->p, 48); }
	if (e1 && e1->peer) { peer_send(e1, payload(raw, id++, 60), raw); }
	for (int i = 0; i < 3; i++) process(0);
	drain();
	/* one is disconnected and answered */
	if (e2 && owner.count(e2) && owner[e2]->live) { Conn &c = *owner[e2]; c.shut = true; int r = pomp_conn_disconnect(c.p); note("  disconnect = %d", r); process(0); c.lossy = true; simk::env_close(e2); es.erase(std::find(es.begin(), es.end(), e2)); process(0); process(0); }
	/* the others are there, except for those whose failure ended them */
	faults_off();
	settle(); drain(); settle();
	checked_msgs(x);
	int alive = (int)x.live().size();
	MC_CHECK(alive + simk::faults_injected >= (int)es.size(), "%d connections are left of %zu with %d failures", alive, es.size(), simk::faults_injected);
	for (Conn *c : x.live()) { Sock *e = c->s->peer; MC_CHECK(e && owner[e] == c && w.wire[e].size() == c->acc.size(), "only %zu of %zu bytes were sent", e ? w.wire[e].size() : 0, c->acc.size()); }
	check_conns(x);
	Sock *e3 = connect1();
	MC_CHECK(e3, "the server does not accept connections any more");
	settle();
	MC_CHECK(owner.count(e3) && owner[e3]->live, "a connection was not accepted");
	for (Sock *e : es) if (e->peer && owner.count(e) && owner[e]->live) peer_send(e, payload(raw, id++, 25), raw);
	settle(); drain();
	checked_msgs(x);
	for (Conn *c : x.live()) MC_CHECK(w.wire[c->s->peer].size() == c->acc.size(), "the answer was not sent");
	faults_on();
	end_ctx(x, how, [&] { if (e3->peer) peer_send(e3, payload(raw, id++, 20), raw); });
	for (Sock *e : es) if (owner.count(e) && e->rxbytes) peer_read(e, owner[e]->acc);
	stopped_state.same("after stop");
	for (Sock *e : es) simk::env_close(e);
	w.on_event = nullptr; w.on_raw = nullptr;
	settle();
	ctx_destroy(x);
	int r = pomp_loop_destroy(w.loop);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r);
	nothing_left("at the end");
	outcome(x.nmsg * 16 + x.ncon);
}
static void f_client()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	bool raw = pick(2, "raw");
	int how = pick(2, "stop in a callback");
	begin(w);
	w.lossy_ok = w.sends_unreported_ok = true;
	cfg.maxfaults = 2; cfg.cap = 160;
	faults_on();
	newloop();
	Ctx &x = newctx(CLIENT, raw);
	faults_off(); process(0); faults_on();
	Held stopped_state;
	Addr a = addr_of(w.fam);
	Sock *l = pick(2, "server there") ? simk::env_listen(a) : nullptr;
	start(x, a);
	uint32_t id = 1, rid = 500;
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) { if (ev == POMP_EVENT_CONNECTED) csend(c, payload(raw, rid++, 16)); if (ev == POMP_EVENT_MSG) csend(c, payload(raw, rid++, 40)); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { csend(c, payload(raw, rid++, 40)); };
	Sock *e = nullptr;
	/* takes what arrives; the last is the one that counts */
	auto accept1 = [&] { if (l) while (Sock *k = simk::env_accept(l)) { if (e) simk::env_close(e); e = k; } };
	auto drain = [&] { for (int k = 0; k < 4; k++) { accept1(); Conn *c = e && e->peer ? conn_of(e->peer) : nullptr; if (c) peer_read(e, c->acc); process(0); } };
	for (int i = 0; i < 4; i++) process(1);
	if (!l) l = simk::env_listen(a);
	wait_ms(2500);
	accept1();
	if (e && e->peer) { peer_send(e, payload(raw, id++, 30), raw); peer_send(e, payload(raw, id++, 90), raw); }
	for (int i = 0; i < 4; i++) process(0);
	if (Conn *c = x.last()) for (int k = 0; k < 3; k++) csend(*c, payload(raw, id++, 70));
	drain();
	faults_off(); settle(); drain(); checked_msgs(x);
	if (Conn *c = x.last()) { Sock *p = c->s->peer; MC_CHECK(p && (p != e || w.wire[e].size() == c->acc.size()), "only %zu of %zu bytes were sent", e ? w.wire[e].size() : 0, c->acc.size()); }
	faults_on();
	/* lost and found again */
	if (e) { simk::env_close(e); e = nullptr; }
	for (int i = 0; i < 3; i++) process(0);
	wait_ms(4500);
	faults_off(); wait_ms(5000); settle(); accept1();
	MC_CHECK(e, "no attempt to connect again");
	Conn *c = x.last();
	MC_CHECK(c && c->s->peer == e, "the client is not connected again");
	peer_send(e, payload(raw, id++, 25), raw); settle(); drain();
	checked_msgs(x);
	MC_CHECK(w.wire[e].size() == c->acc.size(), "the answer was not sent");
	faults_on();
	end_ctx(x, how, [&] { peer_send(e, payload(raw, id++, 20), raw); });
	stopped_state.same("after stop");
	simk::env_close(e); simk::env_close(l);
	w.on_event = nullptr; w.on_raw = nullptr;
	settle();
	ctx_destroy(x);
	int r = pomp_loop_destroy(w.loop);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r);
	nothing_left("at the end");
	outcome(x.nmsg * 16 + x.ncon);
}
static void f_dgram()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_INET6 : AF_INET;
	bool raw = pick(2, "raw");
	int how = pick(2, "stop in a callback");
	begin(w);
	w.lossy_ok = w.sends_unreported_ok = true;
	cfg.maxfaults = 2;
	faults_on();
	newloop();
	Ctx &x = newctx(DGRAM, raw);
	faults_off(); process(0); faults_on();
	Held stopped_state;
	Addr a = addr_of(w.fam), b = addr_of(w.fam, 7);
	start(x, a);
	uint32_t id = 1, rid = 500;
	int got = 0, sent = 0;
	w.on_event = [&](Ctx &, Conn &, int ev, const struct pomp_msg *) { if (ev == POMP_EVENT_MSG) { got++; if (dsend(x, payload(raw, rid++, 40), Addr(), true) == 0) sent++; } };
	w.on_raw = [&](Ctx &, Conn &, struct pomp_buffer *) { got++; if (dsend(x, payload(raw, rid++, 40), Addr(), true) == 0) sent++; };
	wait_ms(4500);
	auto deliver = [&](int n) { for (int k = 0; k < n; k++) { Bytes m = payload(raw, id++, 20 + 10 * k); simk::env_dgram(b, a, m.data(), m.size()); } };
	auto bound = [&] { faults_off(); Bytes m = payload(raw, 200, 20); struct pomp_buffer *buf = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = raw ? nullptr : pomp_msg_new_with_buffer(buf); int r = raw ? pomp_ctx_send_raw_buf_to(x.p, buf, sa(b), b.size()) : pomp_ctx_send_msg_to(x.p, pm, sa(b), b.size()); if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(buf); faults_on(); return r == 0; };
	(void)bound;
	deliver(3);
	for (int i = 0; i < 3; i++) process(0);
	{ size_t n = simk::dgrams.size(); Bytes m = payload(raw, id++, 33); Conn &c = *dgram_conn(x, nullptr); (void)c; int r = dsend(x, m, b); if (r == 0 && simk::dgrams.size() > n) MC_CHECK(simk::dgrams.back().data == m && simk::dgrams.back().to == b, "another datagram was sent"); }
	deliver(1);
	for (int i = 0; i < 3; i++) process(0);
	faults_off();
	wait_ms(2500); settle();
	MC_CHECK(got <= 4 && got + 4 * simk::faults_injected >= 4, "%d of 4 datagrams were delivered with %d failures", got, simk::faults_injected);
	int g0 = got; size_t d0 = simk::dgrams.size();
	deliver(2); settle();
	MC_CHECK(got == g0 + 2, "%d of 2 datagrams were delivered after the failure", got - g0);
	MC_CHECK(simk::dgrams.size() == d0 + 2, "%zu of 2 answers were sent after the failure", simk::dgrams.size() - d0);
	for (size_t i = d0; i < simk::dgrams.size(); i++) MC_CHECK(simk::dgrams[i].to == b && simk::dgrams[i].data == payload(raw, rid - 2 + (uint32_t)(i - d0), 40), "another datagram was sent");
	faults_on();
	end_ctx(x, how, [&] { deliver(1); });
	stopped_state.same("after stop");
	w.on_event = nullptr; w.on_raw = nullptr;
	settle();
	ctx_destroy(x);
	int r = pomp_loop_destroy(w.loop);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r);
	nothing_left("at the end");
	outcome(got * 16 + sent);
}

/* ---- loops, timers, events, idle functions ---- */
struct LObj { int n = 0; int fd = -1; bool on = false; };
static void lo_fd(int fd, uint32_t ev, void *ud) { LObj &o = *(LObj *)ud; MC_CHECK(o.on && fd == o.fd, "callback of a descriptor that is not registered"); o.n++; simk::env_eventfd_read(fd); }
static void lo_idle(void *ud) { LObj &o = *(LObj *)ud; MC_CHECK(o.on, "idle function called that is not registered"); o.n++; o.on = false; }
static void lo_evt(struct pomp_evt *, void *ud) { LObj &o = *(LObj *)ud; MC_CHECK(o.on, "event callback while detached"); o.n++; }
static void lo_timer(struct pomp_timer *, void *ud) { LObj &o = *(LObj *)ud; MC_CHECK(o.on, "timer callback of a timer that is not there"); o.n++; }
static void lo_wd(struct pomp_loop *, void *) {}

static void f_loop()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	int tp = pick(2, "timer implementation");
	begin(w);
	pomp_internal_set_timer_impl(tp ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD);
	if (pick(2, "event implementation")) pomp_evt_set_ops(w.poll ? &pomp_evt_fd_ops : &pomp_evt_posix_ops);
	w.lossy_ok = true; cfg.maxfaults = 2;
	/* pipes and eventfds do not fail to transfer */
	uint64_t F = simk::F_ALL & ~(simk::F_READ | simk::F_WRITE | simk::F_PTHREAD);
	faults_on(F);
	newloop();
	std::deque<LObj> o;
	auto obj = [&]() -> LObj & { o.emplace_back(); return o.back(); };
	/* descriptors */
	LObj &f1 = obj(), &f2 = obj();
	for (LObj *f : {&f1, &f2}) { f->fd = simk::env_eventfd(); Held h; f->on = MAY(pomp_loop_add(w.loop, f->fd, POMP_FD_EVENT_IN, lo_fd, f)) == 0; if (!f->on) { h.same("after a descriptor could not be added"); MC_CHECK(!pomp_loop_has_fd(w.loop, f->fd), "the loop has a descriptor that could not be added"); f->on = MAY(pomp_loop_add(w.loop, f->fd, POMP_FD_EVENT_IN, lo_fd, f)) == 0; } }
	/* idle functions */
	LObj &i1 = obj(), &i2 = obj();
	for (LObj *i : {&i1, &i2}) { i->on = true; if (MAY(pomp_loop_idle_add(w.loop, lo_idle, i)) < 0) i->on = false; }
	int idles = i1.on + i2.on;
	/* events */
	struct pomp_evt *ev[2]; LObj *eo[2];
	for (int k = 0; k < 2; k++) {
		eo[k] = &obj(); Held h; int f0 = simk::faults_injected;
		ev[k] = pomp_evt_new();
		if (!ev[k]) { MC_CHECK(simk::faults_injected > f0, "pomp_evt_new failed although nothing failed"); h.same("after an event could not be created"); simk::NoFault nf; ev[k] = pomp_evt_new(); MC_CHECK(ev[k], "pomp_evt_new fails again"); }
		if (k == 0) MAY(pomp_evt_signal(ev[k]));
		Held h2;
		eo[k]->on = true;
		if (MAY(pomp_evt_attach_to_loop(ev[k], w.loop, lo_evt, eo[k])) < 0) { eo[k]->on = false; h2.same("after an event could not be attached"); simk::NoFault nf; eo[k]->on = true; int r = pomp_evt_attach_to_loop(ev[k], w.loop, lo_evt, eo[k]); MC_CHECK(r == 0, "attaching an event again returned %d", r); }
	}
	/* timers */
	struct pomp_timer *tm[2]; LObj *to[2];
	for (int k = 0; k < 2; k++) {
		to[k] = &obj(); Held h; int f0 = simk::faults_injected;
		tm[k] = pomp_timer_new(w.loop, lo_timer, to[k]);
		if (!tm[k]) { MC_CHECK(simk::faults_injected > f0, "pomp_timer_new failed although nothing failed"); h.same("after a timer could not be created"); simk::NoFault nf; tm[k] = pomp_timer_new(w.loop, lo_timer, to[k]); MC_CHECK(tm[k], "pomp_timer_new fails again"); }
		to[k]->on = true;
		MAY(pomp_timer_set(tm[k], 10 + k));
	}
	for (LObj *f : {&f1, &f2}) simk::env_eventfd_write(f->fd, 1);
	MAY(pomp_evt_signal(ev[1]));
	MAY(pomp_loop_wakeup(w.loop));
	for (int i = 0; i < 5; i++) process(5);
	MAY(pomp_timer_clear(tm[0]));
	MAY(pomp_timer_set_periodic(tm[0], 3, 4));
	MAY(pomp_evt_clear(ev[0]));
	if (f1.on) { MAY(pomp_loop_update(w.loop, f1.fd, POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT)); MAY(pomp_loop_update(w.loop, f1.fd, POMP_FD_EVENT_IN)); }
	for (int i = 0; i < 3; i++) process(5);
	/* from now on all is well */
	faults_off();
	MC_CHECK(pomp_timer_clear(tm[0]) == 0, "pomp_timer_clear fails");
	settle();
	MC_CHECK(i1.n + i2.n == idles && !i1.on && !i2.on, "%d idle functions ran instead of %d", i1.n + i2.n, idles);
	for (LObj *f : {&f1, &f2}) {
		if (!f->on) { int r = pomp_loop_add(w.loop, f->fd, POMP_FD_EVENT_IN, lo_fd, f); MC_CHECK(r == 0, "adding a descriptor returned %d after an earlier failure", r); f->on = true; }
		int n = f->n; simk::env_eventfd_write(f->fd, 1); settle(); MC_CHECK(f->n == n + 1, "a ready descriptor was dispatched %d times", f->n - n);
	}
	for (int k = 0; k < 2; k++) { int n = eo[k]->n; int r = pomp_evt_signal(ev[k]); MC_CHECK(r == 0, "pomp_evt_signal returned %d", r); settle(); MC_CHECK(eo[k]->n == n + 1, "an event was delivered %d times", eo[k]->n - n); }
	for (int k = 0; k < 2; k++) { int n = to[k]->n; int r = pomp_timer_set(tm[k], 5); MC_CHECK(r == 0, "pomp_timer_set returned %d", r); for (int i = 0; i < 6; i++) process(2); MC_CHECK(to[k]->n == n + 1, "a timer fired %d times", to[k]->n - n); }
	int pend = pick(2, "an idle function is left");
	if (pend) { i1.on = true; i1.n = 0; MC_CHECK(pomp_loop_idle_add(w.loop, lo_idle, &i1) == 0, "pomp_loop_idle_add fails"); }
	/* and the end, under faults */
	faults_on(F);
	MC_CHECK(pomp_loop_destroy(w.loop) == -EBUSY, "a loop in use was destroyed");
	for (LObj *f : {&f1, &f2}) { int r = MAY(pomp_loop_remove(w.loop, f->fd)); MC_CHECK(r == 0, "pomp_loop_remove returned %d", r); f->on = false; simk::env_close_fd(f->fd); }
	for (int k = 0; k < 2; k++) { int r = pomp_evt_detach_from_loop(ev[k], w.loop); MC_CHECK(r == 0, "pomp_evt_detach_from_loop returned %d", r); r = pomp_evt_destroy(ev[k]); MC_CHECK(r == 0, "pomp_evt_destroy returned %d", r); }
	for (int k = 0; k < 2; k++) { int r = pomp_timer_destroy(tm[k]); MC_CHECK(r == 0, "pomp_timer_destroy returned %d", r); }
	if (i1.on) pomp_loop_idle_remove(w.loop, lo_idle, &i1), i1.on = false;
	int r = pomp_loop_destroy(w.loop);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r);
	nothing_left("at the end");
	outcome(i1.n + 4 * f1.n + 16 * eo[0]->n + 64 * to[0]->n);
}

/* ---- messages and buffers: allocation failures ---- */
static int collect(struct pomp_decoder *, uint8_t, const union pomp_value *, uint32_t, void *ud) { ++*(int *)ud; return 1; }
static void f_msg()
{
	faults_on(simk::F_MALLOC | simk::F_DUP);
	cfg.maxfaults = 3;
	int f0 = simk::faults_injected;
	Bytes want = ref::message(7, {ref::vi(ref::I32, 5), ref::vs("hello world"), ref::vb(Bytes(300, 'x')), ref::vs("z")});
	int way = pick(5, "way");
	struct pomp_msg *m = pomp_msg_new();
	if (!m) { MC_CHECK(simk::faults_injected > f0, "pomp_msg_new failed although nothing failed"); nothing_left("after pomp_msg_new failed"); return; }
	int r = 0; std::string big(300, 'x'), hex;
	for (int i = 0; i < 300; i++) hex += "78";
	f0 = simk::faults_injected;
	const char *argv[] = {"5", "hello world", hex.c_str(), "300", "z"};
	switch (way) {
	case 0: r = pomp_msg_write(m, 7, "%d%s%p%u%s", 5, "hello world", big.data(), 300u, "z"); break;
	case 1: r = pomp_msg_write_argv(m, 7, "%d%s%p%u%s", 5, argv); break;
	case 2: {
		r = pomp_msg_init(m, 7);
		struct pomp_encoder *e = r == 0 ? pomp_encoder_new() : nullptr;
		if (r == 0 && !e) r = -ENOMEM;
		if (r == 0) r = pomp_encoder_init(e, m);
		if (r == 0) r = pomp_encoder_write_i32(e, 5);
		if (r == 0) r = pomp_encoder_write_str(e, "hello world");
		if (r == 0) r = pomp_encoder_write_buf(e, big.data(), 300);
		if (r == 0) r = pomp_encoder_write_str(e, "z");
		if (r == 0) r = pomp_msg_finish(m);
		if (e) pomp_encoder_destroy(e);
		break; }
	case 3: { Bytes b = want; struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size()); pomp_msg_destroy(m); m = nullptr; if (buf) m = pomp_msg_new_with_buffer(buf); if (buf) pomp_buffer_unref(buf); if (!m) { MC_CHECK(simk::faults_injected > f0, "no message although nothing failed"); nothing_left("after a message could not be made"); return; } break; }
	case 4: { /* a message with a descriptor */
		int fd = simk::env_dummy_fd();
		r = pomp_msg_write(m, 7, "%d%x%s", 5, fd, "q");
		simk::env_close_fd(fd);
		break; }
	}
	note("  write = %d", r);
	if (r < 0) {
		MC_CHECK(simk::faults_injected > f0, "writing returned %d although nothing failed", r);
		/* nothing that could be taken for a message */
		struct pomp_msg *c = pomp_msg_new_copy(m);
		if (c) pomp_msg_destroy(c);
		MC_CHECK(pomp_msg_clear(m) == 0, "pomp_msg_clear failed");
		{ simk::NoFault nf; MC_CHECK(pomp_msg_write(m, 7, "%d%s%p%u%s", 5, "hello world", big.data(), 300u, "z") == 0, "a cleared message can not be written"); MC_CHECK(wire::msg_bytes(m) == want, "wrong bytes"); }
	} else if (way != 4) MC_CHECK(wire::msg_bytes(m) == want, "the message is %s instead of %s", ref::hexs(wire::msg_bytes(m)), ref::hexs(want));
	Bytes now = wire::msg_bytes(m);
	/* copies */
	f0 = simk::faults_injected;
	struct pomp_msg *c = pomp_msg_new_copy(m);
	if (!c) MC_CHECK(simk::faults_injected > f0, "pomp_msg_new_copy failed although nothing failed");
	else { if (way != 4 || r < 0) MC_CHECK(wire::msg_bytes(c) == now, "the copy differs"); pomp_msg_destroy(c); }
	/* reading */
	if (way != 4 || r < 0) {
		int i = 0; char *s1 = (char *)1, *s2 = (char *)1; const void *p = nullptr; unsigned n = 0;
		f0 = simk::faults_injected;
		int q = pomp_msg_read(m, "%d%ms%p%u%ms", &i, &s1, &p, &n, &s2);
		note("  read = %d", q);
		auto untouched = [](char *s) { return !s || s == (char *)1; }; if (q < 0) MC_CHECK(simk::faults_injected > f0 && untouched(s1) && untouched(s2), "reading returned %d (%d failures), strings %p %p", q, simk::faults_injected - f0, s1, s2);
		else { MC_CHECK(q == 0 && i == 5 && !strcmp(s1, "hello world") && n == 300 && !strcmp(s2, "z"), "wrong values"); simk::lib_free(s1); simk::lib_free(s2); }
	}
	f0 = simk::faults_injected;
	char *d = nullptr;
	int q = pomp_msg_adump(m, &d);
	if (q < 0) MC_CHECK(simk::faults_injected > f0 && !d, "pomp_msg_adump returned %d", q);
	else { MC_CHECK(d && strstr(d, "ID:7"), "dump is %s", d ? d : "(null)"); simk::lib_free(d); }
	(void)collect;
	MC_CHECK(wire::msg_bytes(m) == now, "the message has changed");
	MC_CHECK(pomp_msg_destroy(m) == 0, "pomp_msg_destroy failed");
	nothing_left("at the end");
}
/* a stream of messages through the decoder of a connection */
static Reg r([] {
	/* one of the descriptors has the number 0 */
	add("C11", "zero-server", [] { cfg.zero = 1 + pick(8, "descriptor that gets the number 0"); f_server(); }, 1, 1);
	add("C11", "zero-client", [] { cfg.zero = 1 + pick(8, "descriptor that gets the number 0"); f_client(); }, 1, 1);
	add("C11", "zero-dgram", [] { cfg.zero = 1 + pick(8, "descriptor that gets the number 0"); f_dgram(); }, 1, 2);
	add("C11", "zero-loop", [] { cfg.zero = 1 + pick(8, "descriptor that gets the number 0"); f_loop(); }, 1, 2);
	add("C11", "server", f_server, 1, 2);
	add("C11", "client", f_client, 2, 2);
	add("C11", "dgram", f_dgram, 2, 3);
	add("C11", "loop", f_loop, 2, 3);
	add("C11", "msg", f_msg, 3, 4);
});

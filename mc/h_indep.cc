/* C27: loops, contexts, messages and protocol decoders used apart do not
 * affect each other: every program gives the same trace as when it runs alone,
 * whether the other one runs in another thread or between its own calls. */
#include "simk.h"
#include "libpomp.h"
#include "ref.h"
#include "wire.h"
#include <errno.h>
#include <memory>
#include <algorithm>
#include <stdarg.h>
#include <unistd.h>
using namespace mc; using simk::cfg;

extern "C" { struct pomp_evt_ops; extern const struct pomp_evt_ops pomp_evt_fd_ops, pomp_evt_posix_ops; const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *); }
static const uint64_t MS = 1000000ull;

/* ---- a program: a list of steps and the trace they leave ---- */
struct Prog {
	int who; bool timed;               /* timed: time is part of the trace */
	uint64_t t0 = 0;
	std::vector<std::function<void()>> steps;
	std::vector<std::string> lines;
	/* the lines of a step are compared per object: the order of descriptors that are ready together is the kernel's */
	void norm(size_t from) { auto ch = [](const std::string &s) { size_t k = s.find('|'); return k == std::string::npos ? std::string() : s.substr(0, k); }; std::stable_sort(lines.begin() + from, lines.end(), [&](const std::string &a, const std::string &b) { return ch(a) < ch(b); }); }
	void step(size_t i) { size_t k = lines.size(); steps[i](); norm(k); }
	struct pomp_loop *L = nullptr;
	Prog(int w, bool t) : who(w), timed(t) {}
	virtual ~Prog() {}
	void tr(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
		std::string s = b;
		if (timed) s += " @" + std::to_string((simk::now() - t0) / 1000);
		note("    program %d: %s", who, s.c_str());
		lines.push_back(s);
		if (nested && dev(2, "the other program runs now")) { auto f = nested; nested = nullptr; f(); }
	}
	std::function<void()> nested;
	void newloop() { L = pomp_loop_new(); MC_CHECK(L, "pomp_loop_new failed"); }
	void wait(int to) { int r = pomp_loop_wait_and_process(L, to); tr("wait(%d) = %d", to, r); }
	void settle() { for (int i = 0; i < 40; i++) if (pomp_loop_wait_and_process(L, 0) == -ETIMEDOUT) return; fail("program %d: the loop is never idle", who); }
	void destroy() { int r = pomp_loop_destroy(L); tr("loop destroyed = %d", r); }
	void S(std::function<void()> f) { steps.push_back(f); }
};

/* fds, as seen by their callbacks */
struct PFds : Prog {
	int fd[3]; int n = 0;
	PFds(int w, bool t) : Prog(w, t)
	{
		auto cb = [](int f, uint32_t rev, void *ud) { PFds *p = (PFds *)ud; for (int i = 0; i < 3; i++) if (p->fd[i] == f) p->tr("fd %d| has %x, value %llu", i, rev, (unsigned long long)(rev & 1 ? simk::env_eventfd_read(f) : 0)); p->n++; };
		S([=, this] { newloop(); for (int i = 0; i < 3; i++) fd[i] = simk::env_eventfd(); });
		S([=, this] { for (int i = 0; i < 3; i++) tr("add = %d", pomp_loop_add(L, fd[i], i == 1 ? POMP_FD_EVENT_OUT : POMP_FD_EVENT_IN, cb, this)); });
		S([=, this] { simk::env_eventfd_write(fd[0], 3 + who); wait(0); });
		S([=, this] { tr("update = %d", pomp_loop_update(L, fd[1], POMP_FD_EVENT_IN)); wait(0); });
		S([=, this] { simk::env_eventfd_write(fd[2], 5 + who); tr("remove = %d", pomp_loop_remove(L, fd[0])); wait(0); });
		S([=, this] { tr("has %d %d", pomp_loop_has_fd(L, fd[0]), pomp_loop_has_fd(L, fd[1])); tr("remove = %d %d", pomp_loop_remove(L, fd[1]), pomp_loop_remove(L, fd[2])); });
		S([=, this] { destroy(); for (int i = 0; i < 3; i++) simk::env_close_fd(fd[i]); });
	}
};
/* timers */
struct PTimers : Prog {
	struct pomp_timer *a = nullptr, *b = nullptr; int n = 0, m = 0;
	PTimers(int w, bool t) : Prog(w, t)
	{
		S([=, this] { newloop(); a = pomp_timer_new(L, [](struct pomp_timer *, void *ud) { PTimers *p = (PTimers *)ud; p->n++; p->tr("one-shot|"); }, this); });
		S([=, this] { b = pomp_timer_new(L, [](struct pomp_timer *tm, void *ud) { PTimers *p = (PTimers *)ud; p->m++; p->tr("periodic|"); if (p->m == 2) p->tr("periodic| clear = %d", pomp_timer_clear(tm)); }, this); MC_CHECK(a && b, "no timer"); });
		S([=, this] { tr("set = %d %d", pomp_timer_set(a, 3 + who), pomp_timer_set_periodic(b, 2, 4)); });
		S([=, this] { for (int i = 0; i < 20 && (n < 1 || m < 2); i++) pomp_loop_wait_and_process(L, -1); tr("%d %d", n, m); });
		S([=, this] { tr("set = %d", pomp_timer_set(a, 1)); for (int i = 0; i < 20 && n < 2; i++) pomp_loop_wait_and_process(L, -1); });
		S([=, this] { tr("destroy = %d %d", pomp_timer_destroy(a), pomp_timer_destroy(b)); destroy(); });
	}
};
/* idle functions */
struct PIdles : Prog {
	struct I { PIdles *p; int n; } id[5]; int ck[2];
	PIdles(int w, bool t) : Prog(w, t)
	{
		for (int i = 0; i < 5; i++) id[i] = {this, i};
		auto cb = [](void *ud) { I *i = (I *)ud; i->p->tr("idle function %d", i->n); };
		S([=, this] { newloop(); tr("add = %d %d", pomp_loop_idle_add(L, cb, &id[0]), pomp_loop_idle_add_with_cookie(L, cb, &id[1], &ck[0])); });
		S([=, this] { tr("add = %d %d", pomp_loop_idle_add_with_cookie(L, cb, &id[2], &ck[1]), pomp_loop_idle_add(L, cb, &id[3])); });
		S([=, this] { tr("remove = %d", pomp_loop_idle_remove(L, cb, &id[0])); });
		S([=, this] { tr("flush = %d", pomp_loop_idle_flush_by_cookie(L, &ck[1])); });
		S([=, this] { wait(0); tr("remove = %d", pomp_loop_idle_remove_by_cookie(L, &ck[0])); });
		S([=, this] { tr("add = %d", pomp_loop_idle_add(L, cb, &id[4])); tr("flush = %d", pomp_loop_idle_flush(L)); });
		S([=, this] { settle(); tr("wakeup = %d", pomp_loop_wakeup(L)); wait(100); });
		S([=, this] { destroy(); });
	}
};
/* events */
struct PEvts : Prog {
	struct pomp_evt *a = nullptr, *b = nullptr;
	PEvts(int w, bool t) : Prog(w, t)
	{
		auto cb = [](struct pomp_evt *e, void *ud) { PEvts *p = (PEvts *)ud; p->tr("event %c|", e == p->a ? 'a' : e == p->b ? 'b' : '?'); };
		S([=, this] { newloop(); a = pomp_evt_new(); b = pomp_evt_new(); MC_CHECK(a && b, "no event"); });
		S([=, this] { tr("signal = %d", pomp_evt_signal(a)); tr("attach = %d %d", pomp_evt_attach_to_loop(a, L, cb, this), pomp_evt_attach_to_loop(b, L, cb, this)); });
		S([=, this] { wait(0); tr("signal = %d", pomp_evt_signal(b)); tr("clear = %d", pomp_evt_clear(b)); });
		S([=, this] { settle(); tr("signal = %d %d", pomp_evt_signal(a), pomp_evt_signal(b)); tr("detach = %d", pomp_evt_detach_from_loop(a, L)); });
		S([=, this] { settle(); tr("detach = %d", pomp_evt_detach_from_loop(b, L)); });
		S([=, this] { tr("destroy = %d %d", pomp_evt_destroy(a), pomp_evt_destroy(b)); destroy(); });
	}
};
static std::string dump(const struct pomp_msg *m) { char b[200]; int r = pomp_msg_dump(m, b, sizeof(b)); return std::to_string(r) + ":" + b; }
/* a server and a client in one loop */
struct PStream : Prog {
	struct pomp_ctx *srv = nullptr, *cli = nullptr; struct pomp_conn *sc = nullptr; int kind; simk::Addr a; int got = 0;
	static void ev(struct pomp_ctx *c, enum pomp_event e, struct pomp_conn *conn, const struct pomp_msg *m, void *ud)
	{
		PStream *p = (PStream *)ud;
		const char *n = c == p->srv ? "server" : c == p->cli ? "client" : "?";
		if (e == POMP_EVENT_MSG) {
			char *s = nullptr; int32_t v = 0; uint32_t id = pomp_msg_get_id(m);
			int r = id == 1 ? pomp_msg_read(m, "%d%ms", &v, &s) : 0, f = -1;
			if (id == 4) { r = pomp_msg_read(m, "%d%x", &v, &f); unsigned long long x = r == 0 && f >= 0 ? simk::env_eventfd_read(f) : 0; p->tr("%s| descriptor %llu", n, x); }
			p->tr("%s| message %u, %s; read %d, %d '%s'", n, id, id == 4 ? "" : dump(m).c_str(), r, v, s ? s : "");
			if (s) simk::lib_free(s);
			p->got++;
			if (c == p->srv) { int r1 = pomp_conn_send(conn, id + 10, "%u%s", (unsigned)p->who, "answer"); int r2 = pomp_conn_send_msg(conn, m); p->tr("%s| answers = %d %d", n, r1, r2); }
		} else {
			p->tr("%s| %s", n, pomp_event_str(e));
			if (c == p->srv) p->sc = e == POMP_EVENT_CONNECTED ? conn : nullptr;
			if (e == POMP_EVENT_CONNECTED) {
				uint32_t l = 0; char b[200] = "";
				const struct sockaddr *sa = c == p->srv ? pomp_conn_get_local_addr(conn, &l) : pomp_conn_get_peer_addr(conn, &l);
				int r = sa ? pomp_addr_format(b, sizeof(b), sa, l) : -1;
				p->tr("%s| address %s (%d)", n, b, r);
			}
		}
	}
	PStream(int w, bool t, int k) : Prog(w, t), kind(k)
	{
		a = k ? simk::in4(INADDR_LOOPBACK, (uint16_t)(6000 + who)) : simk::un(who ? "@mcb" : "@mca");
		auto sa = (const sockaddr *)a.data();
		S([=, this] { newloop(); srv = pomp_ctx_new_with_loop(ev, this, L); cli = pomp_ctx_new_with_loop(ev, this, L); MC_CHECK(srv && cli, "no context"); });
		S([=, this] { if (k) tr("keepalive = %d", pomp_ctx_setup_keepalive(srv, 1, 4 + who, 2, 3)); tr("listen = %d", pomp_ctx_listen(srv, sa, (uint32_t)a.size())); });
		S([=, this] { tr("connect = %d", pomp_ctx_connect(cli, sa, (uint32_t)a.size())); });
		S([=, this] { for (int i = 0; i < 10 && !sc; i++) { if (timed) pomp_loop_wait_and_process(L, 5); else { pomp_loop_wait_and_process(L, 1); } } settle(); });
		S([=, this] { tr("send = %d %d", pomp_ctx_send(cli, 1, "%d%s", -7 - who, who ? "two" : "one"), pomp_ctx_send(cli, 2, NULL)); });
		if (!k) S([=, this] { int f = simk::env_eventfd(); simk::env_eventfd_write(f, 40 + who); tr("send = %d", pomp_ctx_send(cli, 4, "%d%x", who, f)); simk::env_close_fd(f); });
		S([=, this] { settle(); tr("%d messages", got); });
		S([=, this] { tr("broadcast = %d", pomp_ctx_send(srv, 3, "%s", who ? "x" : "y")); if (sc) tr("disconnect = %d", pomp_conn_disconnect(sc)); });
		S([=, this] { settle(); tr("stop = %d %d", pomp_ctx_stop(cli), pomp_ctx_stop(srv)); });
		S([=, this] { settle(); tr("destroy = %d %d", pomp_ctx_destroy(cli), pomp_ctx_destroy(srv)); destroy(); });
	}
};
/* datagrams */
struct PDgram : Prog {
	struct pomp_ctx *c[2] = {nullptr, nullptr}; simk::Addr a[2];
	static void ev(struct pomp_ctx *x, enum pomp_event e, struct pomp_conn *conn, const struct pomp_msg *m, void *ud)
	{
		PDgram *p = (PDgram *)ud; int i = x == p->c[1];
		if (e != POMP_EVENT_MSG) return;
		uint32_t l = 0; char b[200] = ""; const struct sockaddr *sa = pomp_conn_get_peer_addr(conn, &l);
		int r = sa ? pomp_addr_format(b, sizeof(b), sa, l) : -1;
		p->tr("context %d| message %u %s from %s (%d)", i, pomp_msg_get_id(m), dump(m).c_str(), b, r);
		if (i && sa) p->tr("context 1| answer = %d", pomp_ctx_send_msg_to(x, m, sa, l));
	}
	PDgram(int w, bool t) : Prog(w, t)
	{
		for (int i = 0; i < 2; i++) a[i] = simk::in4(INADDR_LOOPBACK, (uint16_t)(7000 + 2 * who + i));
		S([=, this] { newloop(); for (int i = 0; i < 2; i++) { c[i] = pomp_ctx_new_with_loop(ev, this, L); MC_CHECK(c[i], "no context"); } });
		for (int i = 0; i < 2; i++) S([=, this] { tr("bind = %d", pomp_ctx_bind(c[i], (const sockaddr *)a[i].data(), (uint32_t)a[i].size())); });
		S([=, this] { struct pomp_msg *m = pomp_msg_new(); MC_CHECK(m, "no message"); tr("write = %d", pomp_msg_write(m, 5, "%s%d", who ? "b" : "a", who)); tr("send = %d", pomp_ctx_send_msg_to(c[0], m, (const sockaddr *)a[1].data(), (uint32_t)a[1].size())); tr("destroy = %d", pomp_msg_destroy(m)); });
		S([=, this] { settle(); });
		S([=, this] { for (int i = 0; i < 2; i++) tr("stop = %d", pomp_ctx_stop(c[i])); settle(); });
		S([=, this] { for (int i = 0; i < 2; i++) tr("destroy = %d", pomp_ctx_destroy(c[i])); destroy(); });
	}
};
/* messages, decoders, addresses, without a loop */
struct PMsg : Prog {
	struct pomp_msg *m = nullptr, *m2 = nullptr; struct pomp_prot *pr = nullptr; std::string wirebytes; struct pomp_encoder *en = nullptr;
	PMsg(int w, bool t) : Prog(w, t)
	{
		S([=, this] { m = pomp_msg_new(); MC_CHECK(m, "no message"); tr("write = %d", pomp_msg_write(m, 9 + who, "%s%d%llu%lf%p%u", who ? "hello" : "good bye", -300 - who, 1ull << (40 + who), 1.5 + who, "abc", 2u + who)); });
		S([=, this] { tr("dump %s", dump(m).c_str()); char *d = nullptr; int r = pomp_msg_adump(m, &d); tr("adump %d %s", r, d ? d : ""); if (d) simk::lib_free(d); });
		S([=, this] { m2 = pomp_msg_new_copy(m); MC_CHECK(m2, "no copy"); tr("clear = %d", pomp_msg_clear(m)); tr("dump %s", dump(m2).c_str()); });
		S([=, this] { const void *b; size_t n, cp; pomp_buffer_get_cdata(pomp_msg_get_buffer(m2), &b, &n, &cp); wirebytes = std::string((const char *)b, n); tr("bytes %s", ref::hexs(wirebytes)); });
		S([=, this] { pr = pomp_prot_new(); MC_CHECK(pr, "no decoder"); struct pomp_msg *o = nullptr; int r = pomp_prot_decode_msg(pr, wirebytes.data(), 7, &o); tr("decoded %d %d", r, o != nullptr); });
		S([=, this] { struct pomp_msg *o = nullptr; int r = pomp_prot_decode_msg(pr, wirebytes.data() + 7, wirebytes.size() - 7, &o); tr("decoded %d %s", r, o ? dump(o).c_str() : ""); if (o) tr("release = %d", pomp_prot_release_msg(pr, o)); });
		S([=, this] { char *s1 = nullptr; int i1 = 0; unsigned long long u1 = 0; double d1 = 0; void *p1 = nullptr; unsigned int n1 = 0; int r = pomp_msg_read(m2, "%ms%d%llu%lf%p%u", &s1, &i1, &u1, &d1, &p1, &n1); tr("read %d %s %d %llu %f %u", r, s1 ? s1 : "", i1, u1, d1, n1); if (s1) simk::lib_free(s1); });
		S([=, this] { en = pomp_encoder_new(); pomp_msg_init(m, 3); tr("encoder %d %d %d", pomp_encoder_init(en, m), pomp_encoder_write_str(en, who ? "p" : "q"), pomp_encoder_write_i64(en, -5 - who)); });
		S([=, this] { tr("finish %d", pomp_msg_finish(m)); tr("destroy %d", pomp_encoder_destroy(en)); tr("dump %s", dump(m).c_str()); });
		S([=, this] { struct sockaddr_storage st; uint32_t l = sizeof(st); memset(&st, 0, sizeof(st)); int r = pomp_addr_parse(who ? "inet:10.0.0.2:80" : "unix:/tmp/indep", (sockaddr *)&st, &l); char b[128] = ""; int q = pomp_addr_format(b, sizeof(b), (sockaddr *)&st, l); tr("address %d %d %s, unix %d", r, q, b, pomp_addr_is_unix((sockaddr *)&st, l)); });
		S([=, this] { struct sockaddr_storage st; uint32_t l = sizeof(st); memset(&st, 0, sizeof(st)); int r = pomp_addr_parse(who ? "unix:@indep" : "inet6:::1:443", (sockaddr *)&st, &l); char b[128] = ""; int q = pomp_addr_format(b, sizeof(b), (sockaddr *)&st, l); tr("address %d %d %s, unix %d", r, q, b, pomp_addr_is_unix((sockaddr *)&st, l)); });
		S([=, this] { tr("destroy %d %d %d", pomp_prot_destroy(pr), pomp_msg_destroy(m), pomp_msg_destroy(m2)); });
	}
};
/* a context with a loop of its own */
struct POwn : Prog {
	struct pomp_ctx *c = nullptr; simk::Sock *e = nullptr; simk::Addr a; int got = 0;
	POwn(int w, bool t) : Prog(w, t)
	{
		a = simk::un(who ? "/tmp/indep-b" : "/tmp/indep-a");
		S([=, this] { c = pomp_ctx_new([](struct pomp_ctx *x, enum pomp_event ev, struct pomp_conn *k, const struct pomp_msg *m, void *ud) { POwn *p = (POwn *)ud; p->tr("%s %s %s", x == p->c ? "mine" : "?", pomp_event_str(ev), m ? dump(m).c_str() : ""); if (m) { p->got++; p->tr("answer = %d", pomp_conn_send(k, 4, "%s", p->who ? "r2" : "r1")); } }, this); MC_CHECK(c, "no context"); });
		S([=, this] { tr("listen = %d", pomp_ctx_listen(c, (const sockaddr *)a.data(), (uint32_t)a.size())); });
		S([=, this] { e = simk::env_connect(a); MC_CHECK(e, "connection refused"); tr("wait = %d", pomp_ctx_wait_and_process(c, -1)); });
		S([=, this] { std::string b = ref::message(20 + who, {ref::vi(ref::I32, 77 + who)}); simk::env_send(e, b.data(), b.size()); tr("wait = %d", pomp_ctx_wait_and_process(c, -1)); });
		S([=, this] { tr("wakeup = %d", pomp_ctx_wakeup(c)); tr("wait = %d", pomp_ctx_wait_and_process(c, -1)); tr("received %s", ref::hexs(simk::env_recv(e))); });
		S([=, this] { simk::env_close(e); tr("process = %d", pomp_ctx_process_fd(c)); tr("wait = %d", pomp_ctx_wait_and_process(c, 0)); });
		S([=, this] { tr("stop = %d", pomp_ctx_stop(c)); tr("destroy = %d", pomp_ctx_destroy(c)); });
	}
};
/* a watchdog of its own */
struct PWdog : Prog {
	struct pomp_evt *e = nullptr; int alarms = 0;
	PWdog(int w, bool) : Prog(w, true)
	{
		S([=, this] { newloop(); e = pomp_evt_new(); MC_CHECK(e, "no event");
			pomp_evt_attach_to_loop(e, L, [](struct pomp_evt *, void *ud) { PWdog *p = (PWdog *)ud; p->tr("busy"); simk::advance((p->alarms || p->who ? 120 : 60) * MS); p->tr("done"); }, this); });
		S([=, this] { tr("enable = %d", pomp_loop_watchdog_enable(L, 100, [](struct pomp_loop *l, void *ud) { PWdog *p = (PWdog *)ud; p->alarms++; p->tr("alarm %s", l == p->L ? "mine" : "?"); }, this)); });
		for (int i = 0; i < 2; i++) S([=, this] { pomp_evt_signal(e); wait(-1); tr("%d alarms", alarms); });
		S([=, this] { tr("disable = %d", pomp_loop_watchdog_disable(L)); tr("detach = %d", pomp_evt_detach_from_loop(e, L)); tr("destroy = %d", pomp_evt_destroy(e)); destroy(); });
	}
};
static const int NPROG = 10;
static Prog *mk(int k, int who, bool timed)
{
	switch (k) {
	case 0: return new PMsg(who, timed);
	case 1: return new PFds(who, timed);
	case 2: return new PIdles(who, timed);
	case 3: return new PEvts(who, timed);
	case 4: return new PTimers(who, timed);
	case 5: return new PStream(who, timed, 0);
	case 6: return new PStream(who, timed, 1);
	case 7: return new PDgram(who, timed);
	case 8: return new POwn(who, timed);
	default: return new PWdog(who, timed);
	}
}
static const char *const NAME[] = {"messages", "descriptors", "idle functions", "events", "timers", "unix stream", "inet stream", "datagrams", "context with its own loop", "watchdog"};
static void impl(bool poll)
{
	pomp_internal_set_loop_impl(poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_evt_set_ops(poll ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
}
static void compare(Prog &p, Prog &alone, int k)
{
	for (size_t i = 0; i < p.lines.size() || i < alone.lines.size(); i++) {
		const char *x = i < p.lines.size() ? p.lines[i].c_str() : "(nothing)", *y = i < alone.lines.size() ? alone.lines[i].c_str() : "(nothing)";
		MC_CHECK(!strcmp(x, y), "program %d (%s): '%s' where it has '%s' when it runs alone", p.who, NAME[k], x, y);
	}
	for (auto &s : p.lines) observe_bytes(s.data(), s.size());
}
static std::unique_ptr<Prog> alone(int k, int who, bool timed)
{
	bool e = cfg.preempt; cfg.preempt = false;
	std::unique_ptr<Prog> p(mk(k, who, timed));
	p->t0 = simk::now();
	for (size_t i = 0; i < p->steps.size(); i++) p->step(i);
	cfg.preempt = e;
	return p;
}

/* two threads, one program each */
static void c27_threads()
{
	int k1 = pick(NPROG, "program 1"), k2 = pick(NPROG, "program 2");
	if (k2 < k1) prune();
	impl(pick(2, "implementation"));
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	std::unique_ptr<Prog> a1 = alone(k1, 0, true), a2 = alone(k2, 1, true);
	std::unique_ptr<Prog> p1(mk(k1, 0, true)), p2(mk(k2, 1, true));
	p1->t0 = p2->t0 = simk::now();
	cfg.preempt = true;
	int t = simk::spawn([&] { for (size_t i = 0; i < p2->steps.size(); i++) p2->step(i); }, NAME[k2]);
	for (size_t i = 0; i < p1->steps.size(); i++) p1->step(i);
	simk::join(t);
	cfg.preempt = false;
	compare(*p1, *a1, k1); compare(*p2, *a2, k2);
}

/* one thread, the steps of two programs in every order (up to a number of changes) */
static void c27_interleaved()
{
	int k1 = pick(NPROG - 1, "program 1"), k2 = pick(NPROG - 1, "program 2");
	if (k2 < k1) prune();
	int im = pick(4, "implementations");
	int tm = pick(2, "timer implementation");
	if (tm && k1 != 4 && k2 != 4) prune();
	pomp_internal_set_timer_impl(tm ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD);
	impl(im & 1); auto a1 = alone(k1, 0, false);
	impl(im >> 1); auto a2 = alone(k2, 1, false);
	std::unique_ptr<Prog> p[2]; p[0].reset(mk(k1, 0, false)); p[1].reset(mk(k2, 1, false));
	size_t i[2] = {0, 0}; int cur = pick(2, "first");
	while (i[0] < p[0]->steps.size() || i[1] < p[1]->steps.size()) {
		if (i[cur] >= p[cur]->steps.size()) cur ^= 1;
		else if (i[cur ^ 1] < p[cur ^ 1]->steps.size() && dev(2, "the other program")) cur ^= 1;
		impl((im >> cur) & 1);
		p[cur]->step(i[cur]++);
	}
	compare(*p[0], *a1, k1); compare(*p[1], *a2, k2);
}

/* one thread, a program runs as a whole inside a callback or between two calls of the other */
static void c27_nested()
{
	int k1 = pick(NPROG - 1, "outer program"), k2 = pick(NPROG - 1, "inner program");
	int im = pick(4, "implementations");
	int tm = pick(2, "timer implementation");
	if (tm && k1 != 4 && k2 != 4) prune();
	pomp_internal_set_timer_impl(tm ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD);
	impl(im & 1); auto a1 = alone(k1, 0, false);
	impl(im >> 1); auto a2 = alone(k2, 1, false);
	impl(im & 1);
	std::unique_ptr<Prog> p(mk(k1, 0, false)), q;
	p->nested = [&] { impl(im >> 1); q = alone(k2, 1, false); impl(im & 1); };
	for (size_t i = 0; i < p->steps.size(); i++) p->step(i);
	compare(*p, *a1, k1);
	if (q) compare(*q, *a2, k2);
}

/* a server in one thread, clients in others: each with its own loop */
struct Peer { struct pomp_loop *L; struct pomp_ctx *c; int con = 0, dis = 0, got = 0; bool server; int want; std::string log; };
static void peer_cb(struct pomp_ctx *c, enum pomp_event ev, struct pomp_conn *k, const struct pomp_msg *m, void *ud)
{
	Peer &p = *(Peer *)ud;
	if (ev == POMP_EVENT_CONNECTED) { p.con++; if (!p.server) for (int i = 0; i < 2; i++) MC_CHECK(pomp_ctx_send(c, 1 + i, "%d%s", i * 1000, "request") == 0, "send failed"); }
	if (ev == POMP_EVENT_DISCONNECTED) p.dis++;
	if (ev != POMP_EVENT_MSG) return;
	int v = -1; char *s = nullptr; uint32_t id = pomp_msg_get_id(m);
	MC_CHECK(pomp_msg_read(m, "%d%ms", &v, &s) == 0, "message %u cannot be read", id);
	MC_CHECK(!strcmp(s, p.server ? "request" : "answer"), "'%s' received", s);
	simk::lib_free(s);
	MC_CHECK(v == (int)(id - 1) * 1000 + (p.server ? 0 : 1), "message %u has the value %d", id, v);
	if (!p.server) MC_CHECK((int)id == p.got + 1, "message %u received as number %d", id, p.got + 1);
	p.got++;
	if (p.server) MC_CHECK(pomp_conn_send(k, id, "%d%s", v + 1, "answer") == 0, "send failed");
}
static void c27_peers()
{
	int fam = pick(2, "family"); impl(pick(2, "implementation")); int nc = thorough() ? 2 : 1;
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	simk::Addr a = fam ? simk::in4(INADDR_LOOPBACK, 6100) : simk::un("@peers");
	Peer s; s.server = true; s.L = pomp_loop_new(); s.c = pomp_ctx_new_with_loop(peer_cb, &s, s.L); MC_CHECK(s.c, "no context");
	MC_CHECK(pomp_ctx_listen(s.c, (const sockaddr *)a.data(), (uint32_t)a.size()) == 0, "listen failed");
	cfg.preempt = true;
	std::vector<int> t;
	for (int i = 0; i < nc; i++) t.push_back(simk::spawn([&] {
		Peer p; p.server = false; p.L = pomp_loop_new(); MC_CHECK(p.L, "no loop"); p.c = pomp_ctx_new_with_loop(peer_cb, &p, p.L); MC_CHECK(p.c, "no context");
		MC_CHECK(pomp_ctx_connect(p.c, (const sockaddr *)a.data(), (uint32_t)a.size()) == 0, "connect failed");
		for (int n = 0; p.got < 2; n++) { MC_CHECK(n < 40, "no answer"); pomp_loop_wait_and_process(p.L, -1); }
		MC_CHECK(pomp_ctx_stop(p.c) == 0, "stop failed");
		MC_CHECK(p.con == 1 && p.dis == 1, "%d connections, %d disconnections", p.con, p.dis);
		MC_CHECK(pomp_ctx_destroy(p.c) == 0 && pomp_loop_destroy(p.L) == 0, "destroy failed");
	}, "client"));
	for (int n = 0; s.dis < nc; n++) { MC_CHECK(n < 60, "the clients never end"); int r = pomp_loop_wait_and_process(s.L, -1); MC_CHECK(r == 0, "processing returned %d", r); }
	MC_CHECK(s.con == nc && s.got == 2 * nc, "%d connections, %d messages", s.con, s.got);
	for (int i : t) simk::join(i);
	cfg.preempt = false;
	MC_CHECK(pomp_ctx_stop(s.c) == 0, "stop failed");
	for (int i = 0; i < 10; i++) if (pomp_loop_wait_and_process(s.L, 0) == -ETIMEDOUT) break;
	MC_CHECK(pomp_ctx_destroy(s.c) == 0 && pomp_loop_destroy(s.L) == 0, "destroy failed");
}

static Reg reg([] {
	add("C27", "threads", c27_threads, 1, 2);
	add("C27", "interleaved", c27_interleaved, 3, 5);
	add("C27", "nested", c27_nested, 1, 1);
	add("C27", "peers", c27_peers, 3, 4);
});

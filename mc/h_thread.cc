/* C14: calls into a running loop from other threads and signal handlers */
#include "simk.h"
#include "libpomp.h"
#include <errno.h>
#include <memory>
using namespace mc; using simk::cfg;

extern "C" { struct pomp_evt_ops; extern const struct pomp_evt_ops pomp_evt_fd_ops, pomp_evt_posix_ops; const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *); }
static struct pomp_loop *L;
static const uint64_t MS = 1000000ull;

static void setup()
{
	int poll = pick(2, "loop implementation");
	int ev = pick(2, "event implementation");
	pomp_internal_set_loop_impl(poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	pomp_evt_set_ops(ev ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
	L = pomp_loop_new();
	MC_CHECK(L, "pomp_loop_new failed");
}
static void on() { cfg.preempt = true; cfg.eintr = true; }
static void off() { cfg.preempt = false; cfg.eintr = false; simk::async_left = 0; }
static int wait(int timeout = -1) { int r = pomp_loop_wait_and_process(L, timeout); note("  wait = %d", r); MC_CHECK(r == 0 || r == -ETIMEDOUT || r == -EINTR, "processing the loop returned %d", r); return r; }
static void drain() { for (int i = 0; i < 60; i++) if (wait(0) == -ETIMEDOUT) return; fail("the loop is never idle again"); }
static void destroy() { int r = pomp_loop_destroy(L); MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r); }

/* ---- wakeup: told after the fact is set, so that a wait that misses it never returns ---- */
static void c14_wakeup(bool ctxcall)
{
	setup();
	struct pomp_ctx *ctx = nullptr;
	if (ctxcall) { ctx = pomp_ctx_new_with_loop([](struct pomp_ctx *, enum pomp_event, struct pomp_conn *, const struct pomp_msg *, void *) {}, nullptr, L); MC_CHECK(ctx, "no context"); }
	int mode = pick(3, "how the loop waits");
	if (pick(2, "tiny pipe")) cfg.pipe_cap = 2;
	int nt = 2, per = thorough() ? 2 : 1;
	int flags = 0, seen = 0;
	int early = pick(2, "a wakeup before");
	if (early) MC_CHECK(pomp_loop_wakeup(L) == 0, "pomp_loop_wakeup failed");
	on();
	std::vector<int> t;
	for (int i = 0; i < nt; i++) t.push_back(simk::spawn([&, i] {
		for (int k = 0; k < per; k++) {
			flags++;
			uint64_t t0 = simk::now();
			int r = ctxcall ? pomp_ctx_wakeup(ctx) : pomp_loop_wakeup(L);
			note("    thread %d wakes the loop up = %d", i, r);
			MC_CHECK(r == 0, "wakeup from a thread returned %d", r);
			MC_CHECK(simk::now() == t0, "the call blocked");
		}
	}, i ? "thread 2" : "thread 1"));
	uint64_t t0 = simk::now();
	int rounds = 0;
	while (seen < nt * per) {
		int r = wait(mode == 0 ? -1 : mode == 1 ? 1000 : 1000);
		MC_CHECK(r != -ETIMEDOUT || mode == 0 || seen == nt * per || simk::now() == t0, "a wakeup was lost: the loop waited for its time out");
		seen = flags;
		if (mode == 2 && !rounds) { int k = pomp_loop_process_fd(L); MC_CHECK(k == 0 || k == -ETIMEDOUT, "process_fd returned %d", k); seen = flags; }
		MC_CHECK(++rounds < 60, "the loop wakes up again and again");
	}
	MC_CHECK(simk::now() == t0, "a wakeup was lost: the loop waited for its time out");
	for (int i : t) simk::join(i);
	off();
	drain();
	if (ctx) MC_CHECK(pomp_ctx_destroy(ctx) == 0, "pomp_ctx_destroy failed");
	destroy();
}
static void c14_wakeup_loop() { c14_wakeup(false); }
static void c14_wakeup_ctx() { c14_wakeup(true); }

/* callers never block, however often they call while nobody waits */
static void c14_noblock()
{
	setup();
	int what = pick(3, "call");
	cfg.pipe_cap = 3;
	struct pomp_evt *e = pomp_evt_new(); MC_CHECK(e, "no event");
	static int ncb; ncb = 0;
	MC_CHECK(pomp_evt_attach_to_loop(e, L, [](struct pomp_evt *, void *) { ncb++; }, nullptr) == 0, "attach failed");
	static int nidle; nidle = 0;
	on();
	std::vector<int> t;
	for (int i = 0; i < 2; i++) t.push_back(simk::spawn([&] {
		for (int k = 0; k < 4; k++) {
			int r = what == 0 ? pomp_loop_wakeup(L) : what == 1 ? pomp_evt_signal(e) : pomp_loop_idle_add(L, [](void *) { nidle++; }, nullptr);
			MC_CHECK(r == 0, "call from a thread returned %d", r);
		}
	}, "thread"));
	for (int i : t) simk::join(i);
	off();
	drain();
	if (what == 1) MC_CHECK(ncb >= 1, "a signalled event is not delivered");
	if (what == 2) MC_CHECK(nidle == 8, "%d of 8 idle functions ran", nidle);
	MC_CHECK(pomp_evt_detach_from_loop(e, L) == 0 && pomp_evt_destroy(e) == 0, "removal failed");
	destroy();
}

/* ---- idle functions ---- */
struct Idle { int thread, n; int ran = 0; bool removed = false, maybe = false, added = false; };
static std::deque<Idle> *ID; static std::vector<int> *LAST; static int g_ran;
static bool g_more; static bool g_noorder;   /* a flush by cookie runs its entries before the others */
static void idle_cb(void *ud)
{
	Idle &i = *(Idle *)ud;
	note("    idle function %d.%d runs in thread %d", i.thread, i.n, simk::self());
	MC_CHECK(simk::self() == 0, "an idle function runs in another thread than the loop's");
	MC_CHECK(!i.removed, "an idle function runs after it was removed");
	MC_CHECK(++i.ran == 1, "an idle function runs twice");
	if (!g_noorder) MC_CHECK(i.n > (*LAST)[i.thread], "idle functions of a thread run out of order");
	(*LAST)[i.thread] = i.n;
	g_ran++;
	if (g_more && i.n == 0 && i.thread) { g_more = false; ID->push_back({0, 50}); Idle &k = ID->back(); k.added = true; MC_CHECK(pomp_loop_idle_add(L, idle_cb, &k) == 0, "idle_add failed"); }
}
static void c14_idle()
{
	setup();
	std::deque<Idle> id; std::vector<int> last(4, -1); ID = &id; LAST = &last; g_ran = 0;
	static int cookie[4];
	int mainop = pick(6, "meanwhile the loop's thread");
	g_noorder = mainop == 3;
	g_more = pick(2, "an idle function adds another");
	int per = thorough() ? 3 : 2, nt = 2;
	/* entries are made beforehand: their memory belongs to the harness */
	std::vector<std::vector<Idle *>> e(nt);
	for (int i = 0; i < nt; i++) for (int k = 0; k < per; k++) { id.push_back({i + 1, k}); e[i].push_back(&id.back()); }
	on();
	int done = 0;
	std::vector<int> t;
	for (int i = 0; i < nt; i++) t.push_back(simk::spawn([&, i] {
		for (int k = 0; k < per; k++) {
			int r = k & 1 ? pomp_loop_idle_add_with_cookie(L, idle_cb, e[i][k], &cookie[i]) : pomp_loop_idle_add(L, idle_cb, e[i][k]);
			note("    thread %d adds %d", i + 1, k);
			MC_CHECK(r == 0, "adding an idle function from a thread returned %d", r);
			done++;
		}
	}, i ? "thread 2" : "thread 1"));
	int want = nt * per, r = 0;
	switch (mainop) {
	case 1: id.push_back({0, 10}); r = pomp_loop_idle_add(L, idle_cb, &id.back()); want++; break;
	case 2: r = pomp_loop_idle_flush(L); break;
	case 3: r = pomp_loop_idle_flush_by_cookie(L, &cookie[0]); break;
	case 4: { Idle *x = e[0][0]; if (x->ran == 0) x->maybe = true; r = pomp_loop_idle_remove(L, idle_cb, x); break; }
	case 5: { for (int k = 1; k < per; k += 2) if (!e[1][k]->ran) e[1][k]->maybe = true; r = pomp_loop_idle_remove_by_cookie(L, &cookie[1]); break; }
	}
	MC_CHECK(r == 0, "operation %d of the loop's thread returned %d", mainop, r);
	for (int n = 0;; n++) {
		int missing = 0;
		for (auto &k : id) if (!k.ran && !k.maybe && (k.thread || k.added)) missing++;
		if (mainop == 1 && !id[want - 1 < (int)id.size() ? nt * per : 0].ran) missing++;
		if (!missing) break;
		MC_CHECK(n < 80, "an idle function never runs");
		wait(-1);
	}
	for (int i : t) simk::join(i);
	off();
	drain();
	for (auto &k : id) if (k.thread && !k.maybe) MC_CHECK(k.ran == 1, "an idle function ran %d times", k.ran);
	destroy();
}
/* removal from another thread: afterwards it does not start */
static void c14_remove()
{
	setup();
	std::deque<Idle> id; std::vector<int> last(4, -1); ID = &id; LAST = &last; g_ran = 0; g_more = false; g_noorder = false;
	static int cookie[2];
	for (int i = 0; i < 3; i++) id.push_back({0, i});
	MC_CHECK(pomp_loop_idle_add(L, idle_cb, &id[0]) == 0 && pomp_loop_idle_add_with_cookie(L, idle_cb, &id[1], &cookie[0]) == 0 && pomp_loop_idle_add(L, idle_cb, &id[2]) == 0, "idle_add failed");
	int how = pick(3, "what the thread does"), mainop = pick(3, "what the loop's thread does");
	g_noorder = mainop == 2;
	on();
	int t = simk::spawn([&] {
		int r = how == 0 ? pomp_loop_idle_remove(L, idle_cb, &id[0]) : how == 1 ? pomp_loop_idle_remove_by_cookie(L, &cookie[0]) : pomp_loop_idle_remove(L, idle_cb, &id[2]);
		MC_CHECK(r == 0, "removing from a thread returned %d", r);
		Idle &x = id[how == 0 ? 0 : how == 1 ? 1 : 2];
		x.maybe = true;
		note("    the thread has removed %d", x.n);
		/* it may have been taken already, but not be started from the list later */
	}, "thread");
	int r = mainop == 0 ? pomp_loop_wait_and_process(L, 0) : mainop == 1 ? pomp_loop_idle_flush(L) : pomp_loop_idle_flush_by_cookie(L, &cookie[0]);
	MC_CHECK(r == 0 || r == -ETIMEDOUT || r == -EINTR, "returned %d", r);
	simk::join(t);
	off();
	Idle &x = id[how == 0 ? 0 : how == 1 ? 1 : 2];
	if (!x.ran) x.removed = true;
	drain();
	for (auto &k : id) MC_CHECK(k.ran == 1 || &k == &x, "idle function %d ran %d times", k.n, k.ran);
	destroy();
}

/* ---- events ---- */
struct Ev { struct pomp_evt *e; int flags = 0, seen = 0, signals = 0, calls = 0, clears = 0; bool attached = false; };
static void evt_cb(struct pomp_evt *e, void *ud)
{
	Ev &v = *(Ev *)ud;
	MC_CHECK(v.e == e && v.attached, "event callback of a detached event");
	MC_CHECK(simk::self() == 0, "an event callback runs in another thread than the loop's");
	v.calls++; v.seen = v.flags;
	note("    event callback, %d signals seen", v.seen);
	MC_CHECK(v.calls + v.clears <= v.signals + v.clears, "the event callback was called more often than the event was signalled");
}
static void c14_evt()
{
	setup();
	Ev a, b; a.e = pomp_evt_new(); b.e = pomp_evt_new(); MC_CHECK(a.e && b.e, "no event");
	int mainop = pick(5, "meanwhile the loop's thread");
	if (pick(2, "tiny pipe")) cfg.pipe_cap = 2;
	int per = thorough() ? 2 : 1;
	if (mainop != 4) { MC_CHECK(pomp_evt_attach_to_loop(a.e, L, evt_cb, &a) == 0, "attach failed"); a.attached = true; }
	MC_CHECK(pomp_evt_attach_to_loop(b.e, L, evt_cb, &b) == 0, "attach failed"); b.attached = true;
	on();
	std::vector<int> t;
	for (int i = 0; i < 2; i++) t.push_back(simk::spawn([&, i] {
		for (int k = 0; k < per; k++) {
			a.flags++; a.signals++;
			int r = pomp_evt_signal(a.e); MC_CHECK(r == 0, "pomp_evt_signal from a thread returned %d", r);
			note("    thread %d has signalled", i + 1);
			if (i) { b.flags++; b.signals++; r = pomp_evt_signal(b.e); MC_CHECK(r == 0, "pomp_evt_signal from a thread returned %d", r); }
		}
	}, i ? "thread 2" : "thread 1"));
	int r = 0;
	switch (mainop) {
	case 1: { int f = a.flags; r = pomp_evt_clear(a.e); a.clears++; /* what was signalled before the call has been seen */ (void)f; a.seen = std::max(a.seen, f); break; }
	case 2: a.attached = false; r = pomp_evt_detach_from_loop(a.e, L); MC_CHECK(r == 0, "detach returned %d", r); r = pomp_evt_attach_to_loop(a.e, L, evt_cb, &a); a.attached = true; break;
	case 3: { int k = wait(0); (void)k; break; }
	case 4: r = pomp_evt_attach_to_loop(a.e, L, evt_cb, &a); a.attached = true; break;
	}
	MC_CHECK(r == 0, "operation %d returned %d", mainop, r);
	if (mainop == 1) {
		/* a clear that runs together with signals may take any of them: wait for the others only */
		for (int i : t) simk::join(i);
		off(); drain();
		MC_CHECK(b.seen == b.flags, "a signalled event is not delivered");
	} else {
		for (int n = 0; a.seen < 2 * per || b.seen < per; n++) { MC_CHECK(n < 60, "the event is signalled again and again"); wait(-1); }
		for (int i : t) simk::join(i);
		off(); drain();
	}
	MC_CHECK(a.calls <= a.signals && b.calls <= b.signals, "more callbacks than signals");
	MC_CHECK(pomp_evt_detach_from_loop(a.e, L) == 0 && pomp_evt_detach_from_loop(b.e, L) == 0, "detach failed");
	MC_CHECK(pomp_evt_destroy(a.e) == 0 && pomp_evt_destroy(b.e) == 0, "destroy failed");
	destroy();
}

/* ---- signal handlers: wakeup and event signalling while the loop's thread is anywhere ---- */
static void c14_signal()
{
	setup();
	std::deque<Idle> id; std::vector<int> last(4, -1); ID = &id; LAST = &last; g_ran = 0; g_more = false; g_noorder = false;
	Ev a; a.e = pomp_evt_new(); MC_CHECK(a.e, "no event");
	MC_CHECK(pomp_evt_attach_to_loop(a.e, L, evt_cb, &a) == 0, "attach failed"); a.attached = true;
	int what = pick(2, "the handler");
	if (pick(2, "tiny pipe")) cfg.pipe_cap = 1;
	int fired = 0;
	simk::async_signal = [&] {
		int r;
		if (what == 0) r = pomp_loop_wakeup(L); else { a.flags++; a.signals++; r = pomp_evt_signal(a.e); }
		MC_CHECK(r == 0, "the call from a signal handler returned %d", r);
		fired++;
	};
	simk::async_left = 2;
	for (int i = 0; i < (thorough() ? 3 : 2); i++) switch (pick(6, "operation")) {
		case 0: id.push_back({0, (int)id.size()}); MC_CHECK(pomp_loop_idle_add(L, idle_cb, &id.back()) == 0, "idle_add failed"); break;
		case 1: MC_CHECK(pomp_loop_idle_flush(L) == 0, "flush failed"); break;
		case 2: wait(0); break;
		case 3: { int n = fired; uint64_t t0 = simk::now(); wait(10); if (fired > n && simk::now() > t0) MC_CHECK(simk::now() - t0 <= 10 * MS, "waited too long"); break; }
		case 4: MC_CHECK(pomp_evt_signal(a.e) == 0, "signal failed"); a.flags++; a.signals++; break;
		case 5: { struct pomp_timer *t = pomp_timer_new(L, [](struct pomp_timer *, void *) {}, nullptr); MC_CHECK(t, "no timer"); pomp_timer_set(t, 5); wait(0); MC_CHECK(pomp_timer_destroy(t) == 0, "timer_destroy failed"); break; }
	}
	simk::async_left = 0;
	drain();
	MC_CHECK(a.seen == a.flags, "a signalled event is not delivered");
	for (auto &k : id) MC_CHECK(k.ran == 1, "an idle function ran %d times", k.ran);
	MC_CHECK(pomp_evt_detach_from_loop(a.e, L) == 0 && pomp_evt_destroy(a.e) == 0, "removal failed");
	destroy();
}
/* a signal that arrives while the loop waits: the wait returns at once */
static void c14_signal_wait()
{
	setup();
	int ctxcall = pick(2, "context");
	struct pomp_ctx *ctx = pomp_ctx_new_with_loop([](struct pomp_ctx *, enum pomp_event, struct pomp_conn *, const struct pomp_msg *, void *) {}, nullptr, L);
	uint64_t at = simk::now() + 3 * MS;
	simk::at(at, [&] { int r = ctxcall ? pomp_ctx_wakeup(ctx) : pomp_loop_wakeup(L); MC_CHECK(r == 0, "wakeup returned %d", r); });
	int to = pick(2, "time out") ? 50 : -1;
	cfg.eintr = true;
	int r = wait(to);
	MC_CHECK(r == 0 || r == -EINTR, "returned %d", r);
	MC_CHECK(simk::now() == at || r == -EINTR, "the loop was not woken up");
	cfg.eintr = false;
	drain();
	MC_CHECK(pomp_ctx_destroy(ctx) == 0, "ctx_destroy failed");
	destroy();
}

/* ---- a busy loop: connections, timers and descriptors come and go meanwhile ---- */
static void c14_busy()
{
	setup();
	std::deque<Idle> id; std::vector<int> last(4, -1); ID = &id; LAST = &last; g_ran = 0; g_more = false; g_noorder = false;
	static int msgs; msgs = 0;
	struct pomp_ctx *ctx = pomp_ctx_new_with_loop([](struct pomp_ctx *, enum pomp_event ev, struct pomp_conn *c, const struct pomp_msg *m, void *) { if (ev == POMP_EVENT_MSG) { msgs++; pomp_conn_send_msg(c, m); } }, nullptr, L);
	MC_CHECK(ctx, "no context");
	simk::Addr a = simk::un("@mc");
	int op = pick(4, "what the loop's thread does");
	for (int i = 0; i < 2; i++) { id.push_back({1, i}); }
	int woke = 0;
	if (op >= 2) { MC_CHECK(pomp_ctx_listen(ctx, (const sockaddr *)a.data(), a.size()) == 0, "listen failed"); }
	simk::Sock *e = nullptr;
	if (op >= 2) { e = simk::env_connect(a); wait(0); static const unsigned char M[] = {0x50, 0x4f, 0x4d, 0x50, 1, 0, 0, 0, 12, 0, 0, 0}; simk::env_send(e, M, 12); }
	on();
	int t = simk::spawn([&] {
		for (int i = 0; i < 2; i++) MC_CHECK(pomp_loop_idle_add(L, idle_cb, &id[i]) == 0, "idle_add failed");
		woke = 1; MC_CHECK(pomp_ctx_wakeup(ctx) == 0, "wakeup failed");
	}, "thread");
	switch (op) {
	case 0: { MC_CHECK(pomp_ctx_listen(ctx, (const sockaddr *)a.data(), a.size()) == 0, "listen failed"); wait(0); MC_CHECK(pomp_ctx_stop(ctx) == 0, "stop failed"); break; }
	case 1: { struct pomp_timer *tm = pomp_timer_new(L, [](struct pomp_timer *, void *) {}, nullptr); MC_CHECK(tm && pomp_timer_set(tm, 1) == 0, "timer failed"); wait(0); MC_CHECK(pomp_timer_destroy(tm) == 0, "timer_destroy failed"); struct pomp_evt *ev = pomp_evt_new(); MC_CHECK(pomp_evt_attach_to_loop(ev, L, [](struct pomp_evt *, void *) {}, nullptr) == 0, "attach failed"); pomp_evt_signal(ev); wait(0); MC_CHECK(pomp_evt_detach_from_loop(ev, L) == 0 && pomp_evt_destroy(ev) == 0, "event failed"); break; }
	case 2: wait(0); wait(0); MC_CHECK(msgs == 1, "%d messages", msgs); simk::env_close(e); e = nullptr; wait(0); break;
	case 3: wait(0); MC_CHECK(pomp_ctx_stop(ctx) == 0, "stop failed"); break;
	}
	for (int n = 0; !woke || id[0].ran + id[1].ran < 2; n++) { MC_CHECK(n < 60, "never idle"); wait(-1); }
	simk::join(t);
	off();
	drain();
	if (op == 2) MC_CHECK(pomp_ctx_stop(ctx) == 0, "stop failed");
	if (e) simk::env_close(e);
	drain();
	MC_CHECK(pomp_ctx_destroy(ctx) == 0, "ctx_destroy failed");
	destroy();
}

static Reg reg([] {
	add("C14", "wakeup", c14_wakeup_loop, 2, 4);
	add("C14", "wakeup-ctx", c14_wakeup_ctx, 1, 3);
	add("C14", "noblock", c14_noblock, 1, 2);
	add("C14", "idle", c14_idle, 2, 3);
	add("C14", "remove", c14_remove, 3, 5);
	add("C14", "evt", c14_evt, 2, 3);
	add("C14", "signal", c14_signal, 2, 2);
	add("C14", "signal-wait", c14_signal_wait, 2, 3);
	add("C14", "busy", c14_busy, 2, 3);
});

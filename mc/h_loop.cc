/* C12, C13, C15, C26: loop, idle functions, timers, event objects */
#include "simk.h"
#include "libpomp.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
using namespace mc;
using simk::now;

extern "C" {
struct pomp_evt_ops;
extern const struct pomp_evt_ops pomp_evt_fd_ops, pomp_evt_posix_ops;
const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *);
}
static const uint64_t MS = 1000000ull;
static const char *g_impl = "";
static bool g_poll, g_ptimer, g_pevt;
static void impl(bool evts, bool timers)
{
	g_poll = pick(2, "loop implementation"); g_pevt = g_poll; g_ptimer = false;
	if (evts) g_pevt = pick(2, "event implementation");
	if (timers) g_ptimer = pick(2, "timer implementation");
	pomp_internal_set_loop_impl(g_poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(g_ptimer ? POMP_TIMER_IMPL_POSIX : POMP_TIMER_IMPL_TIMER_FD);
	pomp_evt_set_ops(g_pevt ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
	g_impl = g_poll ? "poll" : "epoll";
}
static const char *evn(uint32_t e)
{
	static char b[8][32]; static int k; char *s = b[k++ & 7]; *s = 0;
	if (e & 1) strcat(s, "IN "); if (e & 2) strcat(s, "PRI "); if (e & 4) strcat(s, "OUT "); if (e & 8) strcat(s, "ERR "); if (e & 16) strcat(s, "HUP "); if (!e) strcat(s, "none");
	return s;
}

/* ------------------------------------------------------------------ C12 */
struct RFd { bool reg = false; uint32_t ev = 0; uint64_t gen = 0; };
struct LoopRef {
	struct pomp_loop *l = nullptr;
	struct pomp_ctx *ctx = nullptr; /* the loop is used through this context */
	std::vector<int> fd;            /* descriptors of the application */
	std::vector<RFd> r;
	/* of the current round */
	bool inround = false; bool partial = false;
	std::vector<uint32_t> want; std::vector<uint64_t> wgen; std::vector<bool> called;
	int ncalled = 0; bool wake = false, fired = false; uint64_t firedat = 0;
	std::function<void(int)> act;
	uint64_t gen = 0;
	uint32_t pending(int i) { simk::File *f = simk::file_of(fd[i]); return f ? f->mask() & 0x1f & (r[i].ev | POMP_FD_EVENT_ERR | POMP_FD_EVENT_HUP) : 0; }
	void snap() { want.assign(fd.size(), 0); wgen.assign(fd.size(), 0); called.assign(fd.size(), false); ncalled = 0; for (size_t i = 0; i < fd.size(); i++) if (r[i].reg) { want[i] = pending(i); wgen[i] = r[i].gen; } }
};
static LoopRef *L;
/* one of the descriptors has the number 0: the program has closed its standard input */
static void zero(int n, void (*fn)()) { simk::cfg.zero = 1 + pick(n, "descriptor that gets the number 0"); fn(); }
static void c12_cb(int fd, uint32_t revents, void *ud)
{
	size_t i = (size_t)(intptr_t)ud;
	MC_CHECK(L->inround, "callback of fd %d outside of the loop's processing", fd);
	MC_CHECK(i < L->fd.size() && L->fd[i] == fd, "callback of fd %d with the user data of another", fd);
	MC_CHECK(L->r[i].reg, "callback of fd %d (number %zu) with %s although it was removed", fd, i, evn(revents));
	MC_CHECK(L->want[i] != 0 || L->r[i].gen != L->wgen[i], "callback of fd %zu with %s although nothing requested was pending", i, evn(revents));
	if (L->r[i].gen == L->wgen[i]) {
		MC_CHECK(revents == L->want[i], "callback of fd %zu with events %s instead of %s(requested %s)", i, evn(revents), evn(L->want[i]), evn(L->r[i].ev));
		MC_CHECK(!L->called[i], "callback of fd %zu twice in one round", i);
	}
	L->called[i] = true; L->ncalled++;
	note("    callback of fd %zu: %s", i, evn(revents));
	observe(i * 32 + revents);
	if (L->act) L->act((int)i);
}
static void l_add(int i, uint32_t ev)
{
	int r = pomp_loop_add(L->l, L->fd[i], ev, c12_cb, (void *)(intptr_t)i);
	note("  add fd %d %s= %d", i, evn(ev), r);
	if (ev == 0) MC_CHECK(r == -EINVAL, "adding a fd without events returned %d", r);
	else if (L->r[i].reg) MC_CHECK(r == -EEXIST, "adding a fd twice returned %d", r);
	else { MC_CHECK(r == 0, "adding a fd returned %d", r); L->r[i].reg = true; L->r[i].ev = ev; L->r[i].gen = ++L->gen; }
}
static void l_rm(int i)
{
	int r = pomp_loop_remove(L->l, L->fd[i]);
	note("  remove fd %d = %d", i, r);
	MC_CHECK(r == (L->r[i].reg ? 0 : -ENOENT), "removing fd %d returned %d", i, r);
	L->r[i].reg = false;
}
static void l_upd(int i, uint32_t ev)
{
	int r = pomp_loop_update(L->l, L->fd[i], ev);
	note("  update fd %d %s= %d", i, evn(ev), r);
	MC_CHECK(r == (L->r[i].reg ? 0 : -ENOENT), "updating fd %d returned %d", i, r);
	if (L->r[i].reg) L->r[i].ev = ev;
}
static void l_upd2(int i, uint32_t a, uint32_t m)
{
	int r = pomp_loop_update2(L->l, L->fd[i], a, m);
	note("  update2 fd %d + %s- %s= %d", i, evn(a), evn(m), r);
	MC_CHECK(r == (L->r[i].reg ? 0 : -ENOENT), "updating fd %d returned %d", i, r);
	if (L->r[i].reg) L->r[i].ev = (L->r[i].ev | a) & ~m;
}
static void l_wake() { int r = L->ctx ? pomp_ctx_wakeup(L->ctx) : pomp_loop_wakeup(L->l); note("  wakeup = %d", r); MC_CHECK(r == 0, "wakeup returned %d", r); L->wake = true; }
/* one wait; at: time of an external change made by fn, or 0 */
static void l_wait(int timeout, uint64_t after = 0, std::function<void()> fn = nullptr, bool process = false)
{
	uint64_t t0 = now();
	L->fired = false;
	if (fn) simk::at(t0 + after * MS, [=] { L->fired = true; L->firedat = now(); fn(); if (L->inround && !L->ncalled) { L->snap(); } });
	L->snap();
	bool some = L->wake; for (uint32_t w : L->want) some = some || w;
	bool wakebefore = L->wake;
	if (!g_poll) { intptr_t f = L->ctx ? pomp_ctx_get_fd(L->ctx) : pomp_loop_get_fd(L->l); MC_CHECK(f >= 0, "no descriptor for the loop: %d", (int)f); MC_CHECK(simk::fd_readable((int)f) == some, "the loop's descriptor is %sreadable but %s", simk::fd_readable((int)f) ? "" : "not ", some ? "something is pending" : "nothing is pending"); }
	else MC_CHECK((L->ctx ? pomp_ctx_get_fd(L->ctx) : pomp_loop_get_fd(L->l)) == -ENOSYS, "pomp_loop_get_fd");
	L->inround = true;
	std::vector<bool> wasreg; for (auto &x : L->r) wasreg.push_back(x.reg);
	L->wake = false;
	int r = L->ctx ? (process ? pomp_ctx_process_fd(L->ctx) : pomp_ctx_wait_and_process(L->ctx, timeout)) : process ? pomp_loop_process_fd(L->l) : pomp_loop_wait_and_process(L->l, timeout);
	if (process) timeout = 0;
	L->inround = false;
	uint64_t dt = now() - t0;
	note("  wait(%d) = %d after %llu ms, %d callbacks", timeout, r, (unsigned long long)(dt / MS), L->ncalled);
	bool fired = L->fired; after = fired ? (L->firedat - t0) / MS : 0;
	bool any = some; for (uint32_t w : L->want) any = any || w;
	if (fired && L->wake) { any = true; }
	if (some) { MC_CHECK(r == 0, "waiting returned %d although something was pending", r); MC_CHECK(dt == 0, "waiting took %llu ms although something was pending", (unsigned long long)(dt / MS)); }
	else if (fired && any) { MC_CHECK(r == 0, "waiting returned %d although something happened after %llu ms", r, (unsigned long long)after); MC_CHECK(dt == after * MS, "waiting took %llu ms although something happened after %llu ms", (unsigned long long)(dt / MS), (unsigned long long)after); }
	else { MC_CHECK(r == -ETIMEDOUT, "waiting %d ms returned %d although nothing happened", timeout, r); MC_CHECK(dt >= (uint64_t)timeout * MS, "waiting %d ms timed out after %llu us", timeout, (unsigned long long)(dt / 1000)); }
	if (fired && L->wake && !some) L->wake = false;    /* consumed by the wait it ended */
	(void)wakebefore;
	/* everything pending whose registration lasted is called in this round */
	if (!L->partial && L->fd.size() < 15) for (size_t i = 0; i < L->fd.size(); i++) if (L->want[i] && L->r[i].reg && L->r[i].gen == L->wgen[i]) MC_CHECK(L->called[i], "fd %zu was pending (%s) but its callback was not called", i, evn(L->want[i]));
	observe(r); observe(dt);
}
static void l_end()
{
	for (size_t i = 0; i < L->fd.size(); i++) if (L->r[i].reg) {
		int r = pomp_loop_destroy(L->l); MC_CHECK(r == -EBUSY, "destroying a loop with a registered fd returned %d", r);
		break;
	}
	for (size_t i = 0; i < L->fd.size(); i++) if (L->r[i].reg) l_rm((int)i);
	int r = pomp_loop_destroy(L->l); MC_CHECK(r == 0, "destroying the loop returned %d", r);
}
static void toggle(int fd) { if (simk::fd_readable(fd)) simk::env_eventfd_read(fd); else simk::env_eventfd_write(fd, 1); }

static void c12_ops()
{
	impl(false, false);
	int depth = thorough() ? 6 : 5;
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new(); MC_CHECK(lr.l, "pomp_loop_new");
	int p[2]; simk::env_pipe(p);
	lr.fd = { simk::env_eventfd(), p[0] }; lr.r.resize(2);
	switch (pick(3, "start")) { case 1: l_add(0, POMP_FD_EVENT_IN); break; case 2: l_add(1, POMP_FD_EVENT_IN); l_add(0, POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT); toggle(lr.fd[0]); break; }
	bool wopen = true, waited = false;
	for (int k = 0; k < depth; k++) {
		int op = pick(18, "operation"); uint64_t one = 1; (void)one;
		switch (op) {
		case 0: l_add(0, POMP_FD_EVENT_IN); break;
		case 1: l_add(0, POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT | POMP_FD_EVENT_PRI); break;
		case 2: l_add(1, POMP_FD_EVENT_IN); break;
		case 3: l_upd(0, POMP_FD_EVENT_OUT); break;
		case 4: l_upd(1, 0); break;
		case 5: l_upd2(0, POMP_FD_EVENT_OUT, POMP_FD_EVENT_IN); break;
		case 6: l_upd2(0, POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT, POMP_FD_EVENT_OUT); break;
		case 7: l_rm(0); break;
		case 8: l_rm(1); break;
		case 9: toggle(lr.fd[0]); note("  toggle"); break;
		case 10: if (wopen) { simk::env_close_fd(p[1]); wopen = false; note("  hangup"); } break;
		case 11: l_wake(); break;
		case 12: l_wait(0); waited = true; break;
		case 13: l_wait(10, 4, [&] { toggle(lr.fd[0]); }); break;
		case 14: l_wait(10); break;
		case 15: l_wait(0, 0, nullptr, true); break;
		case 16: l_add(1, 0); break;
		case 17: l_add(1, POMP_FD_EVENT_HUP); break;
		}
		for (int i = 0; i < 2; i++) MC_CHECK(pomp_loop_has_fd(lr.l, lr.fd[i]) == lr.r[i].reg, "pomp_loop_has_fd of fd %d is wrong", i);
	}
	(void)waited;
	l_wait(0); l_wait(3);
	l_end();
}
/* the loop of a context, used through the context */
static void c12_ctx()
{
	impl(false, false);
	LoopRef lr; L = &lr;
	bool own = pick(2, "the context has its own loop");
	struct pomp_loop *ext = own ? nullptr : pomp_loop_new();
	auto ev = [](struct pomp_ctx *, enum pomp_event, struct pomp_conn *, const struct pomp_msg *, void *) {};
	lr.ctx = own ? pomp_ctx_new(ev, nullptr) : pomp_ctx_new_with_loop(ev, nullptr, ext);
	MC_CHECK(lr.ctx, "no context");
	lr.l = pomp_ctx_get_loop(lr.ctx);
	MC_CHECK(lr.l && (own || lr.l == ext), "the context has another loop");
	lr.fd = { simk::env_eventfd() }; lr.r.resize(1);
	l_add(0, POMP_FD_EVENT_IN);
	for (int k = 0; k < (thorough() ? 6 : 5); k++) {
		switch (pick(8, "operation")) {
		case 0: toggle(lr.fd[0]); note("  toggle"); break;
		case 1: l_wake(); break;
		case 2: l_wait(0); break;
		case 3: l_wait(7); break;
		case 4: l_wait(10, 4, [&] { toggle(lr.fd[0]); }); break;
		case 5: if (lr.r[0].ev && !lr.wake && !simk::fd_readable(lr.fd[0])) l_wait(-1, 60, [&] { toggle(lr.fd[0]); }); break;
		case 6: l_wait(0, 0, nullptr, true); break;
		case 7: l_upd(0, lr.r[0].ev ^ POMP_FD_EVENT_IN); break;
		}
	}
	l_wait(0); l_wait(3);
	l_rm(0);
	int r = pomp_ctx_destroy(lr.ctx); MC_CHECK(r == 0, "pomp_ctx_destroy returned %d", r);
	if (ext) { r = pomp_loop_destroy(ext); MC_CHECK(r == 0, "destroying the loop returned %d", r); }
}
/* what the callbacks of one round may do to each other */
static void c12_round()
{
	impl(false, false);
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new();
	int n = 3;
	for (int i = 0; i < n + 1; i++) { lr.fd.push_back(simk::env_eventfd()); simk::env_eventfd_write(lr.fd[i], 1); }
	lr.r.resize(n + 1);
	for (int i = 0; i < n; i++) l_add(i, POMP_FD_EVENT_IN | (i == 1 ? POMP_FD_EVENT_OUT : 0));
	simk::cfg.order = true;
	lr.partial = !g_poll && budget() > 0;
	int acts = 0, maxacts = thorough() ? 4 : 3;
	lr.act = [&](int i) {
		if (acts++ >= maxacts) { simk::env_eventfd_read(lr.fd[i]); return; }
		int a = (i + 1) % n, b = (i + 2) % n;
		switch (pick(16, "callback")) {
		case 0: break;
		case 1: l_rm(i); break;
		case 2: l_rm(a); break;
		case 3: l_rm(b); break;
		case 4: l_rm(a); l_rm(b); l_rm(i); break;
		case 5: l_add(n, POMP_FD_EVENT_IN); break;
		case 6: l_upd(a, 0); break;
		case 7: l_upd(b, POMP_FD_EVENT_OUT); break;
		case 8: if (lr.r[a].reg) l_rm(a); l_add(a, POMP_FD_EVENT_IN); break;
		case 9: simk::env_eventfd_read(lr.fd[a]); break;
		case 10: l_wake(); break;
		case 11: l_upd2(i, 0, POMP_FD_EVENT_IN); break;
		case 12: if (lr.r[i].reg) l_rm(i); l_add(i, POMP_FD_EVENT_OUT); break;
		case 13: l_add(a, POMP_FD_EVENT_OUT); break;
		case 14: simk::env_eventfd_read(lr.fd[i]); l_rm(b); break;
		case 15: l_rm(b); l_add(n, POMP_FD_EVENT_OUT | POMP_FD_EVENT_IN); l_rm(a); break;
		}
	};
	l_wait(0); l_wait(0);
	lr.act = nullptr;
	simk::cfg.order = false; lr.partial = false;
	l_wait(0);
	l_end();
}
/* no fd is starved, however many are pending all the time */
static void c12_many()
{
	impl(false, false);
	static const int N[] = { 14, 15, 16, 17, 31, 33, 64 };
	int n = N[pick(thorough() ? 7 : 6, "fds")], busy = pick(3, "always pending");
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new(); lr.partial = true;
	for (int i = 0; i < n; i++) { lr.fd.push_back(simk::env_eventfd()); simk::env_eventfd_write(lr.fd[i], 1); }
	lr.r.resize(n);
	for (int i = 0; i < n; i++) l_add(i, POMP_FD_EVENT_IN);
	simk::cfg.order = true;
	std::vector<int> calls(n, 0);
	lr.act = [&](int i) { calls[i]++; if (busy == 0 || (busy == 1 && i % 2)) simk::env_eventfd_read(lr.fd[i]); };
	int rounds = (n + 15) / 16 + 1 + (int)2 * 2;
	for (int k = 0; k < rounds; k++) if (busy || std::count(calls.begin(), calls.end(), 0)) l_wait(0);
	for (int i = 0; i < n; i++) MC_CHECK(calls[i] > 0, "fd %d of %d, pending all the time, was not called in %d rounds", i, n, rounds);
	if (busy == 2) { int mn = 1 << 30, mx = 0; for (int c : calls) { mn = std::min(mn, c); mx = std::max(mx, c); } }
	/* every second one removed: the others are still served */
	for (int i = 0; i < n; i++) { if (!(i % 2)) l_rm(i); simk::env_eventfd_write(lr.fd[i], 1); calls[i] = 0; }
	for (int k = 0; k < rounds; k++) { bool left = false; for (int i = 1; i < n; i += 2) if (simk::fd_readable(lr.fd[i])) left = true; if (left) l_wait(0); }
	for (int i = 1; i < n; i += 2) MC_CHECK(calls[i] > 0, "fd %d of %d was not called after others were removed", i, n);
	lr.act = nullptr;
	l_end();
}
/* many fds: removing any of them, in several orders, leaves exactly the others */
static void c12_table()
{
	impl(false, false);
	int n = thorough() ? 520 : 300;
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new();
	for (int i = 0; i < n; i++) lr.fd.push_back(simk::env_eventfd());
	lr.r.resize(n);
	int order = pick(5, "order"), k = order == 4 ? pick_big(n, "removed") : 0;
	for (int i = 0; i < n; i++) { int r = pomp_loop_add(lr.l, lr.fd[i], POMP_FD_EVENT_IN, c12_cb, (void *)(intptr_t)i); MC_CHECK(r == 0, "adding fd %d of %d returned %d", i, n, r); lr.r[i].reg = true; lr.r[i].ev = POMP_FD_EVENT_IN; }
	auto check = [&] { for (int i = 0; i < n; i++) MC_CHECK(pomp_loop_has_fd(lr.l, lr.fd[i]) == lr.r[i].reg, "fd %d of %d is %s", i, n, lr.r[i].reg ? "not known any more after another one was removed" : "still there after its removal"); count(n); };
	auto rm = [&](int i) { int r = pomp_loop_remove(lr.l, lr.fd[i]); MC_CHECK(r == 0, "removing fd %d of %d returned %d", i, n, r); lr.r[i].reg = false; };
	check();
	if (order == 4) rm(k);
	else for (int i = 0; i < n / 2; i++) { rm(order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? i * 2 : (i % 2 ? n / 2 + i / 2 : n / 2 - 1 - i / 2)); check(); }
	check();
	/* those that are left are served, one by one */
	for (int i = 0; i < n; i += order == 4 ? 37 : 5) if (lr.r[i].reg) { simk::env_eventfd_write(lr.fd[i], 1); l_wait(0); simk::env_eventfd_read(lr.fd[i]); }
	for (int i = 0; i < n; i++) if (lr.r[i].reg) rm(i);
	check();
	l_end();
}
/* descriptors of every magnitude: every two of them are kept apart */
static void c12_numbers()
{
	impl(false, false);
	static const int STEP[] = { 1, 2, 16, 64, 127, 128, 129, 256, 512, 1000, 1024, 2048, 4096, 8191 };
	int step = STEP[pick(14, "distance")]; static const int BASE[] = { 200, 255, 511, 1020, 4095, 32767, 65530 };
	int base = BASE[pick(7, "first")], n = 9;
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new(); lr.partial = true;
	for (int i = 0; i < n; i++) { lr.fd.push_back(simk::env_eventfd_at(base + i * step)); MC_CHECK(lr.fd[i] == base + i * step, "harness: descriptor number"); }
	lr.r.resize(n);
	auto check = [&] { for (int i = 0; i < n; i++) MC_CHECK(pomp_loop_has_fd(lr.l, lr.fd[i]) == lr.r[i].reg, "fd %d is %s", lr.fd[i], lr.r[i].reg ? "not known" : "known although it is not registered"); for (int d : { 1, 128, 256, 1024, 65536 }) MC_CHECK(!pomp_loop_has_fd(lr.l, lr.fd[n - 1] + d), "fd %d is known although it was never added", lr.fd[n - 1] + d); count(n); };
	for (int i = 0; i < n; i++) { l_add(i, POMP_FD_EVENT_IN); check(); }
	for (int i = 0; i < n; i++) { simk::env_eventfd_write(lr.fd[i], 1); l_wait(0); MC_CHECK(lr.called[i], "fd %d is pending but its callback was not called", lr.fd[i]); simk::env_eventfd_read(lr.fd[i]); l_upd(i, POMP_FD_EVENT_PRI); l_upd2(i, POMP_FD_EVENT_IN, POMP_FD_EVENT_PRI); }
	int from = pick(n, "removed first"), dir = pick(2, "order") ? 1 : n - 1;
	for (int k = 0, i = from; k < n; k++, i = (i + dir) % n) { l_rm(i); check(); l_rm(i); if (k % 3 == 1) { simk::env_eventfd_write(lr.fd[i], 1); l_wait(0); simk::env_eventfd_read(lr.fd[i]); } }
	l_end();
}
/* waiting: every combination of timeout, time of the event and interruptions */
static void c12_wait()
{
	impl(false, false);
	static const int T[] = { 0, 1, 10, -1, 2147483647 };
	int t = T[pick(5, "timeout")]; static const int A[] = { -1, 0, 1, 5, 10, 15 };
	int a = A[pick(6, "event after")]; int what = pick(4, "event");
	LoopRef lr; L = &lr;
	lr.l = pomp_loop_new();
	int p[2]; simk::env_pipe(p);
	lr.fd = { simk::env_eventfd(), p[0] }; lr.r.resize(2);
	l_add(0, POMP_FD_EVENT_IN); if (what != 3) l_add(1, POMP_FD_EVENT_IN);
	simk::cfg.eintr = true;
	auto ev = [&] { switch (what) { case 0: simk::env_eventfd_write(lr.fd[0], 1); break; case 1: simk::env_close_fd(p[1]); break; case 2: case 3: { int r = pomp_loop_wakeup(lr.l); MC_CHECK(r == 0, "wakeup from a signal handler returned %d", r); L->wake = true; } } };
	if (a < 0 && t < 0) prune();
	if (a < 0 && t > 1000) prune();
	if (a < 0) l_wait(t);
	else { l_wait(t, a, ev); }
	l_wait(20);
	l_wait(3);
	simk::cfg.eintr = false;
	l_end();
}
/* every set of requested events, changed to every other one, with every set of pending events */
static void c12_masks()
{
	impl(false, false);
	LoopRef lr; L = &lr; lr.l = pomp_loop_new(); lr.fd = { simk::env_dummy_fd() }; lr.r.resize(1);
	uint32_t req = (uint32_t)pick(31, "requested") + 1; int how = pick(3, "change");
	l_add(0, req);
	auto all = [&] { for (uint32_t p = 0; p < 32; p++) { simk::env_dummy_mask(lr.fd[0], p); l_wait(0); count(1); } };
	all();
	if (how == 0) { l_rm(0); for (uint32_t n = 1; n < 32; n++) { l_add(0, n); all(); l_rm(0); } l_add(0, req); }
	else if (how == 1) for (uint32_t n = 0; n < 32; n++) { l_upd(0, n); all(); l_upd(0, req); }
	else for (uint32_t a = 0; a < 32; a++) for (uint32_t m = 0; m < 32; m++) { l_upd2(0, a, m); for (uint32_t p : {0u, 1u, 2u, 4u, 8u, 16u, 31u}) { simk::env_dummy_mask(lr.fd[0], p); l_wait(0); count(1); } l_upd(0, req); }
	l_end();
}
static void c12_args()
{
	impl(false, false);
	LoopRef lr; L = &lr; lr.l = pomp_loop_new(); lr.fd = { simk::env_eventfd() }; lr.r.resize(1);
	MC_CHECK(pomp_loop_add(nullptr, 5, 1, c12_cb, 0) == -EINVAL && pomp_loop_add(lr.l, -1, 1, c12_cb, 0) == -EINVAL && pomp_loop_add(lr.l, lr.fd[0], 0, c12_cb, 0) == -EINVAL && pomp_loop_add(lr.l, lr.fd[0], 1, nullptr, 0) == -EINVAL, "bad arguments accepted");
	MC_CHECK(pomp_loop_update(nullptr, 5, 1) == -EINVAL && pomp_loop_update(lr.l, -1, 1) == -EINVAL && pomp_loop_update2(nullptr, 5, 1, 1) == -EINVAL && pomp_loop_update2(lr.l, -1, 1, 1) == -EINVAL && pomp_loop_remove(nullptr, 5) == -EINVAL && pomp_loop_remove(lr.l, -1) == -EINVAL, "bad arguments accepted");
	MC_CHECK(pomp_loop_has_fd(nullptr, 3) == 0 && pomp_loop_has_fd(lr.l, -1) == 0 && pomp_loop_destroy(nullptr) == -EINVAL && pomp_loop_wakeup(nullptr) == -EINVAL && pomp_loop_wait_and_process(nullptr, 0) == -EINVAL && pomp_loop_process_fd(nullptr) == -EINVAL && pomp_loop_get_fd(nullptr) == -EINVAL, "bad arguments accepted");
	/* a descriptor that cannot be watched: refused and not kept (epoll) */
	if (!g_poll) { MC_CHECK(pomp_loop_add(lr.l, 900, POMP_FD_EVENT_IN, c12_cb, 0) < 0, "a descriptor that is not open was added"); MC_CHECK(!pomp_loop_has_fd(lr.l, 900), "a descriptor that could not be added is kept"); }
	/* a failing update keeps the old events */
	l_add(0, POMP_FD_EVENT_IN); simk::env_eventfd_write(lr.fd[0], 1);
	simk::cfg.faults = simk::F_EPOLL_MOD; simk::cfg.maxfaults = 1;
	int r = pick(2, "update") ? pomp_loop_update(lr.l, lr.fd[0], POMP_FD_EVENT_OUT) : pomp_loop_update2(lr.l, lr.fd[0], POMP_FD_EVENT_OUT, POMP_FD_EVENT_IN);
	simk::cfg.faults = 0;
	if (r == 0) lr.r[0].ev = POMP_FD_EVENT_OUT; else MC_CHECK(simk::faults_injected && r == -ENOMEM, "update returned %d", r);
	l_wait(0);
	if (r < 0) { simk::env_eventfd_read(lr.fd[0]); l_wait(0); simk::env_eventfd_write(lr.fd[0], 1); }
	l_upd2(0, POMP_FD_EVENT_PRI, 0);
	l_wait(0);
	l_end();
}
static Reg r12([] {
	add("C12", "zero-round", [] { zero(6, c12_round); });
	add("C12", "zero-table", [] { zero(6, c12_table); });
	add("C12", "ctx", c12_ctx);
	add("C12", "ops", c12_ops);
	add("C12", "round", c12_round, 1, 2);
	add("C12", "many", c12_many, 1, 2);
	add("C12", "table", c12_table);
	add("C12", "masks", c12_masks);
	add("C12", "numbers", c12_numbers);
	add("C12", "wait", c12_wait, 2, 3);
	add("C12", "args", c12_args, 1, 1);
});

/* ------------------------------------------------------------------ C13 */
struct RIdle { int id; int cb; int ud; int cookie; };
struct IdleRef {
	struct pomp_loop *l; std::vector<RIdle> q; int next = 1;
	std::vector<int> mode;          /* 0: loop, -1: flush, c: flush of cookie c */
	int ran = 0, acts = 0, maxacts = 0; bool inapi = false;
};
static IdleRef *I;
static void i_add(int cb, int ud, int cookie);
static void i_remove(int cb, int ud);
static void i_remove_cookie(int c);
static void i_flush(int c);
static void i_call(int cb, void *ud)
{
	int u = (int)(intptr_t)ud;
	MC_CHECK(!I->inapi, "an idle function is called from inside the registering call");
	MC_CHECK(!I->mode.empty(), "an idle function is called outside of the loop's processing");
	int m = I->mode.back();
	size_t k = 0;
	if (m > 0) while (k < I->q.size() && I->q[k].cookie != m) k++;
	MC_CHECK(k < I->q.size(), "idle function %d:%d is called although nothing %sis pending", cb, u, m > 0 ? "with the cookie " : "");
	MC_CHECK(I->q[k].cb == cb && I->q[k].ud == u, "idle function %d:%d is called instead of %d:%d", cb, u, I->q[k].cb, I->q[k].ud);
	I->q.erase(I->q.begin() + k); I->ran++;
	note("    idle function %d:%d", cb, u);
	observe(cb * 16 + u);
	if (I->acts >= I->maxacts) return;
	I->acts++;
	switch (pick(9, "idle function")) {
	case 0: break;
	case 1: i_add(0, 1, 0); break;
	case 2: i_add(1, 2, 1); break;
	case 3: i_remove(0, 1); break;
	case 4: i_remove(1, 1); break;
	case 5: i_remove_cookie(1); break;
	case 6: i_remove_cookie(2); break;
	case 7: i_flush(1); break;
	case 8: i_flush(-1); break;
	}
}
static void idle0(void *ud) { i_call(0, ud); }
static void idle1(void *ud) { i_call(1, ud); }
static pomp_idle_cb_t CB[] = { idle0, idle1 };
static char g_cookie[4];
static void i_add(int cb, int ud, int cookie)
{
	bool s = I->inapi; I->inapi = true;
	int r = cookie ? pomp_loop_idle_add_with_cookie(I->l, CB[cb], (void *)(intptr_t)ud, &g_cookie[cookie]) : pomp_loop_idle_add(I->l, CB[cb], (void *)(intptr_t)ud);
	I->inapi = s;
	note("  idle add %d:%d cookie %d = %d", cb, ud, cookie, r);
	MC_CHECK(r == 0, "idle add returned %d", r);
	I->q.push_back({ I->next++, cb, ud, cookie });
}
static void i_remove(int cb, int ud)
{
	int r = pomp_loop_idle_remove(I->l, CB[cb], (void *)(intptr_t)ud);
	note("  idle remove %d:%d = %d", cb, ud, r);
	MC_CHECK(r == 0, "idle remove returned %d", r);
	I->q.erase(std::remove_if(I->q.begin(), I->q.end(), [&](RIdle &x) { return x.cb == cb && x.ud == ud; }), I->q.end());
}
static void i_remove_cookie(int c)
{
	int r = pomp_loop_idle_remove_by_cookie(I->l, &g_cookie[c]);
	note("  idle remove cookie %d = %d", c, r);
	MC_CHECK(r == 0, "idle remove returned %d", r);
	I->q.erase(std::remove_if(I->q.begin(), I->q.end(), [&](RIdle &x) { return x.cookie == c; }), I->q.end());
}
static void i_flush(int c)
{
	note("  idle flush %d", c);
	I->mode.push_back(c);
	int r = c < 0 ? pomp_loop_idle_flush(I->l) : pomp_loop_idle_flush_by_cookie(I->l, &g_cookie[c]);
	I->mode.pop_back();
	MC_CHECK(r == 0, "idle flush returned %d", r);
	for (auto &x : I->q) MC_CHECK(c > 0 && x.cookie != c, "after flushing, idle function %d:%d is still pending", x.cb, x.ud);
}
static void i_wait(int t)
{
	uint64_t t0 = now(); int ran = I->ran; bool pend = !I->q.empty();
	note("  wait %d", t);
	I->mode.push_back(0);
	int r = pomp_loop_wait_and_process(I->l, t);
	I->mode.pop_back();
	if (pend) { MC_CHECK(now() == t0, "the loop slept %llu ms with pending idle functions", (unsigned long long)((now() - t0) / MS)); MC_CHECK(I->ran > ran, "processing the loop called no pending idle function"); MC_CHECK(r == 0, "processing returned %d", r); }
	else MC_CHECK(I->ran == ran, "idle functions called");
}
static void i_drain()
{
	I->maxacts = 0;
	for (int k = 0; k < 30 && !I->q.empty(); k++) i_wait(50);
	MC_CHECK(I->q.empty(), "idle functions are still pending after 30 rounds");
	i_wait(0); i_wait(0);
	int r = pomp_loop_destroy(I->l); MC_CHECK(r == 0, "destroying the loop returned %d", r);
}
static void c13_ops()
{
	impl(true, false);
	IdleRef ir; I = &ir; ir.l = pomp_loop_new(); ir.maxacts = thorough() ? 2 : 1;
	int depth = thorough() ? 6 : 5;
	for (int k = 0; k < depth; k++) switch (pick(10, "operation")) {
	case 0: i_add(0, 1, 0); break;
	case 1: i_add(1, 1, 1); break;
	case 2: i_add(0, 2, 2); break;
	case 3: i_remove(0, 1); break;
	case 4: i_remove(1, 1); break;
	case 5: i_remove_cookie(1); break;
	case 6: i_flush(-1); break;
	case 7: i_flush(1); break;
	case 8: i_wait(0); break;
	case 9: i_wait(10); break;
	}
	i_drain();
}
/* idle functions that act on each other: all combinations of actions of the first ones */
static void c13_inner()
{
	impl(false, false);
	IdleRef ir; I = &ir; ir.l = pomp_loop_new(); ir.maxacts = 0;
	int n = 3 + pick(2, "count");
	static const int E[][3] = { {0, 1, 0}, {1, 1, 1}, {0, 1, 2}, {0, 2, 1}, {1, 1, 0} };
	for (int k = 0; k < n; k++) { int e = pick(5, "entry"); i_add(E[e][0], E[e][1], E[e][2]); }
	ir.maxacts = thorough() ? 4 : 3;
	switch (pick(3, "how")) { case 0: i_wait(5); i_wait(5); i_wait(5); break; case 1: i_flush(-1); break; case 2: i_flush(1); i_wait(5); break; }
	i_drain();
}
static void c13_destroy()
{
	impl(true, false);
	IdleRef ir; I = &ir; ir.l = pomp_loop_new();
	int n = pick(3, "entries"); for (int k = 0; k < n; k++) i_add(k % 2, k, k % 2);
	int r = pomp_loop_destroy(ir.l);
	if (n) { MC_CHECK(r == -EBUSY, "destroying a loop with idle functions returned %d", r); MC_CHECK(!ir.ran, "destroying called idle functions");
		switch (pick(2, "then")) { case 0: i_flush(-1); break; case 1: i_remove(0, 0); i_remove(1, 1); break; }
		r = pomp_loop_destroy(ir.l); }
	MC_CHECK(r == 0, "destroying the loop returned %d", r);
	MC_CHECK(pomp_loop_idle_add(nullptr, idle0, 0) < 0 && pomp_loop_idle_remove(nullptr, idle0, 0) < 0 && pomp_loop_idle_flush(nullptr) < 0 && pomp_loop_idle_add_with_cookie(nullptr, idle0, 0, &r) < 0 && pomp_loop_idle_remove_by_cookie(nullptr, &r) < 0 && pomp_loop_idle_flush_by_cookie(nullptr, &r) < 0, "null loop accepted");
}
static void c13_args()
{
	impl(true, false);
	IdleRef ir; I = &ir; ir.l = pomp_loop_new();
	MC_CHECK(pomp_loop_idle_add(ir.l, nullptr, 0) == -EINVAL && pomp_loop_idle_add_with_cookie(ir.l, nullptr, 0, &ir) == -EINVAL && pomp_loop_idle_add_with_cookie(ir.l, idle0, 0, nullptr) == -EINVAL && pomp_loop_idle_remove_by_cookie(ir.l, nullptr) == -EINVAL && pomp_loop_idle_flush_by_cookie(ir.l, nullptr) == -EINVAL, "bad arguments accepted");
	i_wait(0);
	/* a refused registration is never called */
	simk::cfg.faults = simk::F_MALLOC;
	int r = pomp_loop_idle_add(ir.l, idle0, (void *)5);
	simk::cfg.faults = 0;
	if (r == 0) ir.q.push_back({ 1, 0, 5, 0 }); else MC_CHECK(simk::faults_injected, "idle add returned %d", r);
	i_add(1, 1, 1);
	i_drain();
}
static Reg r13([] {
	add("C13", "ops", c13_ops);
	add("C13", "inner", c13_inner);
	add("C13", "destroy", c13_destroy);
	add("C13", "args", c13_args, 1, 1);
});

/* ------------------------------------------------------------------ C15 */
struct RTimer { struct pomp_timer *t = nullptr; bool armed = false; uint64_t due = 0, period = 0; int calls = 0; };
struct TimerRef { struct pomp_loop *l; RTimer r[2]; bool inround = false; int acts = 0, maxacts = 0; int ncalled = 0; };
static TimerRef *T;
static void t_set(int i, uint32_t d, uint32_t p)
{
	RTimer &r = T->r[i]; if (!r.t) return;
	int res = p ? pomp_timer_set_periodic(r.t, d, p) : pomp_timer_set(r.t, d);
	note("  timer %d set %u period %u = %d", i, d, p, res);
	MC_CHECK(res == 0, "setting a timer returned %d", res);
	r.armed = true; r.due = now() + d * MS; r.period = p * MS;
}
static void t_clear(int i)
{
	RTimer &r = T->r[i]; if (!r.t) return;
	int res = pomp_timer_clear(r.t);
	note("  timer %d clear = %d", i, res);
	MC_CHECK(res == 0, "clearing a timer returned %d", res);
	r.armed = false;
}
static void t_cb(struct pomp_timer *t, void *ud);
static void t_new(int i) { RTimer &r = T->r[i]; if (r.t) return; r = RTimer(); r.t = pomp_timer_new(T->l, t_cb, (void *)(intptr_t)i); note("  timer %d new", i); MC_CHECK(r.t, "pomp_timer_new"); }
static void t_destroy(int i) { RTimer &r = T->r[i]; if (!r.t) return; int res = pomp_timer_destroy(r.t); note("  timer %d destroy = %d", i, res); MC_CHECK(res == 0, "destroying a timer returned %d", res); r.t = nullptr; r.armed = false; }
static void t_cb(struct pomp_timer *t, void *ud)
{
	int i = (int)(intptr_t)ud; RTimer &r = T->r[i];
	note("    timer %d fires at %llu ms", i, (unsigned long long)(now() / MS));
	MC_CHECK(T->inround, "a timer fires outside of the loop's processing");
	MC_CHECK(r.t == t, "a timer that was destroyed fires");
	MC_CHECK(r.armed, "timer %d fires although it is not set (an earlier expiration, or a second time)", i);
	MC_CHECK(now() >= r.due, "timer %d fires %llu us early", i, (unsigned long long)((r.due - now()) / 1000));
	if (r.period) r.due += ((now() - r.due) / r.period + 1) * r.period; else r.armed = false;
	r.calls++; T->ncalled++;
	observe(i + 2 * (now() / MS));
	if (T->acts >= T->maxacts) return;
	T->acts++;
	switch (pick(9, "timer callback")) {
	case 0: break;
	case 1: t_set(i, 3, 0); break;
	case 2: t_set(i, 2, 4); break;
	case 3: t_clear(i); break;
	case 4: t_clear(!i); break;
	case 5: t_set(!i, 3, 0); break;
	case 6: t_destroy(!i); break;
	case 7: t_destroy(i); break;
	case 8: simk::advance(5 * MS); break;
	}
}
static void t_wait(int ms)
{
	uint64_t t0 = now();
	uint64_t due = UINT64_MAX; bool ready = false;
	for (auto &r : T->r) if (r.armed) { due = std::min(due, r.due); if (r.due <= t0) ready = true; }
	int n = T->ncalled;
	T->inround = true;
	int res = pomp_loop_wait_and_process(T->l, ms);
	T->inround = false;
	note("  wait %d = %d at %llu ms", ms, res, (unsigned long long)(now() / MS));
	if (ready && !simk::cfg.order) MC_CHECK(T->ncalled > n, "processing the loop does not call the callback of an expired timer");
	else if (due <= t0 + (uint64_t)ms * MS) { }
}
/* everything due is called when the loop has run */
static void t_settle()
{
	for (int k = 0; k < 8; k++) t_wait(0);
	for (int i = 0; i < 2; i++) { RTimer &r = T->r[i]; MC_CHECK(!r.armed || r.due > now(), "timer %d, due since %llu ms, has not fired", i, (unsigned long long)((now() - r.due) / MS)); }
}
static void t_end()
{
	T->maxacts = 0;
	t_settle();
	/* the coming expirations come in time and only those */
	uint64_t due = UINT64_MAX; for (auto &r : T->r) if (r.armed) due = std::min(due, r.due);
	if (due != UINT64_MAX) { int n = T->ncalled; for (int k = 0; k < 4 && T->ncalled == n; k++) t_wait(-1); MC_CHECK(T->ncalled > n && now() == due, "the loop woke up at %llu ms for a timer due at %llu ms", (unsigned long long)(now() / MS), (unsigned long long)(due / MS)); }
	simk::advance(20 * MS);
	t_settle();
	for (int i = 0; i < 2; i++) t_destroy(i);
	simk::advance(20 * MS);
	for (int k = 0; k < 3; k++) { T->inround = true; pomp_loop_wait_and_process(T->l, 1); T->inround = false; }
	int r = pomp_loop_destroy(T->l); MC_CHECK(r == 0, "destroying the loop returned %d", r);
	simk::advance(20 * MS);
}
static void c15_one()
{
	impl(false, true);
	TimerRef tr; T = &tr; tr.l = pomp_loop_new(); tr.maxacts = 1;
	t_new(0);
	int depth = thorough() ? 7 : 6;
	for (int k = 0; k < depth; k++) switch (pick(9, "operation")) {
	case 0: t_set(0, 3, 0); break;
	case 1: t_set(0, 5, 2); break;
	case 2: t_clear(0); break;
	case 3: t_destroy(0); t_new(0); break;
	case 4: simk::advance(2 * MS); break;
	case 5: simk::advance(3 * MS); break;
	case 6: t_wait(0); break;
	case 7: t_wait(4); break;
	case 8: simk::advance(11 * MS); break;
	}
	t_end();
}
static void c15_two()
{
	impl(false, true);
	TimerRef tr; T = &tr; tr.l = pomp_loop_new(); tr.maxacts = 2;
	t_new(0); t_new(1);
	simk::cfg.order = true;
	int a = pick(3, "first"), b = pick(3, "second");
	auto st = [](int i, int k) { switch (k) { case 0: t_set(i, 3, 0); break; case 1: t_set(i, 3, 2); break; case 2: t_set(i, 4, 0); break; } };
	st(0, a); st(1, b);
	int depth = thorough() ? 4 : 3;
	for (int k = 0; k < depth; k++) switch (pick(7, "operation")) {
	case 0: simk::advance(4 * MS); break;
	case 1: t_wait(0); break;
	case 2: t_wait(5); break;
	case 3: t_clear(0); break;
	case 4: t_set(1, 2, 0); break;
	case 5: t_destroy(1); break;
	case 6: t_set(0, 3, 3); break;
	}
	simk::cfg.order = false;
	t_end();
}
/* delays and periods of every magnitude give exactly that time */
static void c15_delay()
{
	impl(false, true);
	static const uint32_t D[] = { 1, 2, 999, 1000, 1001, 1999, 2000, 59999, 60000, 3600000, 86400000, 2147483647u, 2147483648u, 4294967294u, 4294967295u };
	uint32_t d = D[pick(15, "delay")]; int pk = pick(16, "period"); uint32_t p = pk ? D[pk - 1] : 0;
	TimerRef tr; T = &tr; tr.l = pomp_loop_new();
	t_new(0);
	simk::cfg.eintr = true;
	uint64_t t0 = now();
	t_set(0, d, p);
	simk::advance(d * MS - 1); t_wait(0); MC_CHECK(tr.ncalled == 0, "a timer of %u ms fires one nanosecond early", d);
	for (int k = 0; k < 3 && !tr.ncalled; k++) t_wait(-1);
	MC_CHECK(tr.ncalled == 1 && now() == t0 + d * MS, "a timer of %u ms fires after %llu ms", d, (unsigned long long)((now() - t0) / MS));
	if (p) for (int k = 0; k < 3; k++) {
		uint64_t t1 = now();
		for (int q = 0; q < 3 && tr.ncalled == k + 1; q++) t_wait(-1);
		MC_CHECK(tr.ncalled == k + 2 && now() == t1 + p * MS, "a timer with period %u ms fires again after %llu ms", p, (unsigned long long)((now() - t1) / MS));
	}
	simk::cfg.eintr = false;
	t_destroy(0);
	pomp_loop_destroy(tr.l);
}
static void c15_args()
{
	impl(false, true);
	TimerRef tr; T = &tr; tr.l = pomp_loop_new();
	MC_CHECK(!pomp_timer_new(nullptr, t_cb, 0) && !pomp_timer_new(tr.l, nullptr, 0) && pomp_timer_destroy(nullptr) < 0 && pomp_timer_set(nullptr, 1) < 0 && pomp_timer_set_periodic(nullptr, 1, 1) < 0 && pomp_timer_clear(nullptr) < 0, "bad arguments accepted");
	/* failing creation leaves nothing */
	simk::cfg.faults = simk::F_ALL & ~simk::F_FCNTL; simk::cfg.maxfaults = 1;
	tr.r[0].t = pomp_timer_new(tr.l, t_cb, 0);
	simk::cfg.faults = 0;
	if (!tr.r[0].t) { MC_CHECK(simk::faults_injected, "pomp_timer_new failed"); t_new(0); }
	t_new(1);
	t_set(0, 2, 0); t_set(1, 3, 0);
	int r = pomp_loop_destroy(tr.l); MC_CHECK(r == -EBUSY, "destroying a loop with timers returned %d", r);
	t_wait(10); t_wait(10);
	MC_CHECK(tr.r[0].calls == 1 && tr.r[1].calls == 1, "timers did not fire");
	t_destroy(0); t_destroy(1);
	r = pomp_loop_destroy(tr.l); MC_CHECK(r == 0, "destroying the loop returned %d", r);
}
static Reg r15([] {
	add("C15", "zero-two", [] { zero(6, c15_two); }, 0, 0, true);
	add("C15", "zero-delay", [] { zero(6, c15_delay); }, 1, 1);
	add("C15", "one", c15_one);
	add("C15", "two", c15_two, 1, 2);
	add("C15", "delay", c15_delay, 2, 2);
	add("C15", "args", c15_args, 1, 1);
});

/* ------------------------------------------------------------------ C26 */
struct REvt { struct pomp_evt *e = nullptr; bool sig = false; int loop = -1; };
struct EvtRef { struct pomp_loop *l[2]; REvt r[2]; int inround = -1; int acts = 0, maxacts = 0, ncalled = 0; };
static EvtRef *E;
static void e_cb(struct pomp_evt *e, void *ud);
static void e_signal(int i, int times = 1) { REvt &r = E->r[i]; if (!r.e) return; for (int k = 0; k < times; k++) { int x = pomp_evt_signal(r.e); MC_CHECK(x == 0, "signalling returned %d (%d times before)", x, k); } r.sig = true; note("  event %d signal x%d", i, times); }
static void e_clear(int i) { REvt &r = E->r[i]; if (!r.e) return; int x = pomp_evt_clear(r.e); MC_CHECK(x == 0, "clearing an event returned %d", x); r.sig = false; note("  event %d clear", i); }
static void e_attach(int i, int l) { REvt &r = E->r[i]; if (!r.e) return; int x = pomp_evt_attach_to_loop(r.e, E->l[l], e_cb, (void *)(intptr_t)(i + 10 * l)); note("  event %d attach to loop %d = %d", i, l, x); MC_CHECK(x == (r.loop >= 0 ? -EEXIST : 0), "attaching an event returned %d", x); if (r.loop < 0) r.loop = l; }
static void e_detach(int i, int l) { REvt &r = E->r[i]; if (!r.e) return; int x = pomp_evt_detach_from_loop(r.e, E->l[l]); note("  event %d detach from loop %d = %d", i, l, x); MC_CHECK(x == (r.loop == l ? 0 : r.loop < 0 ? -ENOENT : -EINVAL), "detaching an event returned %d", x); if (r.loop == l) r.loop = -1; }
static void e_destroy(int i) { REvt &r = E->r[i]; if (!r.e) return; int x = pomp_evt_destroy(r.e); note("  event %d destroy = %d", i, x); MC_CHECK(x == (r.loop >= 0 ? -EBUSY : 0), "destroying an event returned %d", x); if (r.loop < 0) r = REvt(); }
static void e_new(int i) { REvt &r = E->r[i]; if (r.e) return; r = REvt(); r.e = pomp_evt_new(); MC_CHECK(r.e, "pomp_evt_new"); }
static void e_cb(struct pomp_evt *e, void *ud)
{
	int i = (int)(intptr_t)ud % 10, l = (int)(intptr_t)ud / 10; REvt &r = E->r[i];
	note("    event %d delivered", i);
	MC_CHECK(E->inround == l, "an event is delivered outside of its loop's processing");
	MC_CHECK(r.e == e && r.loop == l, "an event is delivered by a loop it is not attached to");
	MC_CHECK(r.sig, "event %d is delivered although it is not signalled", i);
	r.sig = false; E->ncalled++;
	observe(i);
	if (E->acts >= E->maxacts) return;
	E->acts++;
	switch (pick(10, "event callback")) {
	case 0: break;
	case 1: e_signal(i); break;
	case 2: e_clear(!i); break;
	case 3: e_signal(!i); break;
	case 4: e_detach(i, l); break;
	case 5: e_detach(i, l); e_destroy(i); break;
	case 6: e_detach(!i, l); break;
	case 7: e_detach(!i, l); e_destroy(!i); break;
	case 8: e_signal(i); e_clear(i); break;
	case 9: e_detach(!i, l); e_attach(!i, l); break;
	}
}
static void e_wait(int l, int ms)
{
	note("  loop %d wait %d", l, ms);
	bool some = false; for (auto &r : E->r) if (r.e && r.loop == l && r.sig) some = true;
	int n = E->ncalled; uint64_t t0 = now();
	E->inround = l;
	int x = pomp_loop_wait_and_process(E->l[l], ms);
	E->inround = -1;
	if (some) MC_CHECK(E->ncalled > n && now() == t0, "processing does not deliver a signalled event");
	else { MC_CHECK(E->ncalled == n, "an event is delivered"); MC_CHECK(x == -ETIMEDOUT && now() == t0 + ms * MS, "the loop is woken up (%d) although no event is signalled", x); }
}
static void e_end()
{
	E->maxacts = 0;
	for (int l = 0; l < 2; l++) for (int k = 0; k < 3; k++) {
		bool some = false; for (auto &r : E->r) if (r.e && r.loop == l && r.sig) some = true;
		if (some) e_wait(l, 0);
	}
	for (auto &r : E->r) MC_CHECK(!r.e || r.loop < 0 || !r.sig, "a signalled event is not delivered");
	/* what is signalled while detached is delivered after attaching */
	for (int i = 0; i < 2; i++) if (E->r[i].e && E->r[i].loop < 0) { e_attach(i, 0); if (E->r[i].sig) { e_wait(0, 0); MC_CHECK(!E->r[i].sig, "a signal made while detached is lost"); } }
	e_wait(0, 3); e_wait(1, 3);
	for (int i = 0; i < 2; i++) if (E->r[i].e) { MC_CHECK(pomp_evt_is_attached(E->r[i].e, nullptr) == 1 && pomp_evt_is_attached(E->r[i].e, E->l[0]) == (E->r[i].loop == 0) && pomp_evt_is_attached(E->r[i].e, E->l[1]) == (E->r[i].loop == 1), "pomp_evt_is_attached is wrong"); e_destroy(i); e_detach(i, E->r[i].loop); MC_CHECK(!pomp_evt_is_attached(E->r[i].e, nullptr), "attached after detaching"); e_destroy(i); }
	for (int l = 0; l < 2; l++) { int r = pomp_loop_destroy(E->l[l]); MC_CHECK(r == 0, "destroying the loop returned %d", r); }
}
static void c26_ops()
{
	impl(true, false);
	EvtRef er; E = &er; er.l[0] = pomp_loop_new(); er.l[1] = pomp_loop_new(); er.maxacts = 1;
	e_new(0); e_new(1);
	int depth = thorough() ? 6 : 5;
	for (int k = 0; k < depth; k++) switch (pick(12, "operation")) {
	case 0: e_signal(0); break;
	case 1: e_signal(1); break;
	case 2: e_clear(0); break;
	case 3: e_attach(0, 0); break;
	case 4: e_attach(1, 0); break;
	case 5: e_attach(0, 1); break;
	case 6: e_detach(0, 0); break;
	case 7: e_detach(0, 1); break;
	case 8: e_destroy(0); e_new(0); break;
	case 9: e_wait(0, 0); break;
	case 10: e_wait(1, 5); break;
	case 11: e_signal(0, 2); break;
	}
	e_end();
}
static void c26_round()
{
	impl(true, false);
	EvtRef er; E = &er; er.l[0] = pomp_loop_new(); er.l[1] = pomp_loop_new(); er.maxacts = 3;
	e_new(0); e_new(1);
	simk::cfg.order = true;
	e_attach(0, 0); e_attach(1, 0); e_signal(0); e_signal(1);
	/* the two are delivered in one round, in any order */
	for (int k = 0; k < 3; k++) {
		bool some = false; for (auto &r : er.r) if (r.e && r.loop == 0 && r.sig) some = true;
		er.inround = 0; int n = er.ncalled; pomp_loop_wait_and_process(er.l[0], 0); er.inround = -1;
		MC_CHECK(!some || er.ncalled > n, "a signalled event is not delivered");
		if (k < 2) switch (pick(4, "between")) { case 0: break; case 1: e_signal(0); break; case 2: e_clear(1); break; case 3: e_signal(1); e_signal(0); break; }
	}
	simk::cfg.order = false;
	e_end();
}
/* however many signals are pending */
static void c26_many()
{
	impl(true, false);
	static const size_t CAP[] = { 1, 2, 63, 64, 65, 128, 65536 }; static const int N[] = { 1, 2, 63, 64, 65, 127, 128, 129, 200 };
	simk::cfg.pipe_cap = CAP[pick(7, "pipe capacity")]; int n = N[pick(9, "signals")];
	EvtRef er; E = &er; er.l[0] = pomp_loop_new(); er.l[1] = pomp_loop_new();
	e_new(0); e_new(1);
	simk::cfg.eintr = true; simk::cfg.partial = true;
	int at = pick(2, "attached"); if (at) e_attach(0, 0);
	e_signal(0, n);
	if (pick(2, "then")) { e_clear(0); if (!at) e_attach(0, 0); e_wait(0, 2); e_signal(0, n); } else if (!at) e_attach(0, 0);
	e_wait(0, 2);
	simk::cfg.eintr = false; simk::cfg.partial = false;
	MC_CHECK(er.ncalled == 1, "%d signals were delivered %d times", n, er.ncalled);
	e_end();
}
static void c26_args()
{
	impl(true, false);
	EvtRef er; E = &er; er.l[0] = pomp_loop_new(); er.l[1] = pomp_loop_new();
	simk::cfg.faults = simk::F_ALL & ~simk::F_FCNTL; simk::cfg.maxfaults = 1;
	er.r[0].e = pomp_evt_new();
	if (er.r[0].e) { int x = pomp_evt_attach_to_loop(er.r[0].e, er.l[0], e_cb, (void *)0); if (x == 0) er.r[0].loop = 0; else MC_CHECK(simk::faults_injected, "attach failed"); }
	simk::cfg.faults = 0;
	e_new(0); e_new(1);
	MC_CHECK(pomp_evt_attach_to_loop(er.r[1].e, er.l[0], nullptr, 0) == -EINVAL && pomp_evt_attach_to_loop(er.r[1].e, nullptr, e_cb, 0) == -EINVAL && pomp_evt_attach_to_loop(nullptr, er.l[0], e_cb, 0) == -EINVAL && pomp_evt_detach_from_loop(nullptr, er.l[0]) == -EINVAL && pomp_evt_detach_from_loop(er.r[1].e, nullptr) == -EINVAL && pomp_evt_destroy(nullptr) == -EINVAL && pomp_evt_signal(nullptr) == -EINVAL && pomp_evt_clear(nullptr) == -EINVAL && pomp_evt_is_attached(nullptr, nullptr) == 0, "bad arguments accepted");
	e_signal(0); e_signal(1);
	int r = er.r[0].loop == 0 ? pomp_loop_destroy(er.l[0]) : -EBUSY; MC_CHECK(r == -EBUSY, "destroying a loop with an attached event returned %d", r);
	e_end();
}
static Reg r26([] {
	add("C26", "zero-round", [] { zero(8, c26_round); });
	add("C26", "zero-args", [] { zero(8, c26_args); });
	add("C26", "ops", c26_ops);
	add("C26", "round", c26_round, 1, 2);
	add("C26", "many", c26_many, 1, 2);
	add("C26", "args", c26_args, 1, 1);
});

/* C16: the watchdog of a loop */
#include "simk.h"
#include "libpomp.h"
#include <errno.h>
using namespace mc; using simk::cfg; using simk::now;

extern "C" { struct pomp_evt_ops; extern const struct pomp_evt_ops pomp_evt_fd_ops, pomp_evt_posix_ops; const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *); }
static const uint64_t MS = 1000000ull;
static struct pomp_loop *L;

/* what the watchdog may do, kept from the calls of the loop's thread */
struct Mon {
	bool enabled = false; uint32_t delay = 0; int gen = 0;   /* gen: which enabling */
	bool inside = false;               /* a processing step runs */
	uint64_t start = 0;                /* its start */
	bool must = false;                 /* enabled, unchanged since before the step */
	uint32_t mindelay = 0;             /* smallest delay in force during the step */
	uint32_t anydelay = 0;             /* smallest one of all the enablings in the step */
	uint64_t ensince = 0;              /* when it was enabled, if within the step */
	int alarms = 0, total = 0;
	int calls[8] = {0};
};
static Mon *M;
static void alarm_cb(struct pomp_loop *loop, void *ud)
{
	int gen = (int)(intptr_t)ud;
	note("    alarm %d at %llu us", gen, (unsigned long long)(now() / 1000));
	MC_CHECK(loop == L, "the watchdog gives another loop");
	MC_CHECK(M->enabled, "alarm although the watchdog is disabled");
	MC_CHECK(gen == M->gen, "alarm with the data of another enabling (%d instead of %d)", gen, M->gen);
	MC_CHECK(M->inside, "alarm while nothing is being processed");
	MC_CHECK(simk::self() != 0, "the alarm runs in the loop's thread");
	M->alarms++; M->total++;
	MC_CHECK(M->alarms == 1, "two alarms for one processing step");
	MC_CHECK(now() >= M->start + M->mindelay * MS, "alarm %llu us after the start of the step, the delay is %u ms", (unsigned long long)((now() - M->start) / 1000), M->mindelay);
	if (M->ensince) MC_CHECK(now() >= M->ensince + M->mindelay * MS, "stale alarm: %llu us after the watchdog was enabled, the delay is %u ms", (unsigned long long)((now() - M->ensince) / 1000), M->mindelay);
}
static void enable(uint32_t d)
{
	bool was = M->enabled;
	/* the data of an update are in force from the call on, those of a new watchdog too */
	M->gen++; M->enabled = true;
	if (M->inside) { M->must = false; if (was) M->mindelay = std::min(M->mindelay, d); else { M->mindelay = d; M->ensince = now(); } M->anydelay = std::min(M->anydelay, d); }
	M->delay = d;
	int g = M->gen;
	/* an alarm that starts during the call may still have the data before */
	int r = pomp_loop_watchdog_enable(L, d, alarm_cb, (void *)(intptr_t)g);
	note("  enable with %u ms = %d", d, r);
	MC_CHECK(r == 0, "pomp_loop_watchdog_enable returned %d", r);
}
static void disable()
{
	int r = pomp_loop_watchdog_disable(L);
	note("  disable = %d", r);
	MC_CHECK(r == 0, "pomp_loop_watchdog_disable returned %d", r);
	M->enabled = false; M->must = false; M->ensince = 0;
}
static void step_begin() { M->inside = true; M->start = now(); M->alarms = 0; M->must = M->enabled; M->mindelay = M->delay; M->anydelay = M->enabled ? M->delay : UINT32_MAX; M->ensince = 0; }
/* time for which the current step has been running when its last callback ended */
static uint64_t g_end; static bool g_ran; static uint32_t g_stepdelay;
static void step_end()
{
	uint64_t d = g_end - M->start;
	note("  step of %llu us, %d alarms", (unsigned long long)(d / 1000), M->alarms);
	if (M->must && d > (uint64_t)g_stepdelay * MS) MC_CHECK(M->alarms == 1, "no alarm although the step lasted %llu us and the delay is %u ms", (unsigned long long)(d / 1000), g_stepdelay);
	if (d < (uint64_t)M->anydelay * MS) MC_CHECK(M->alarms == 0, "alarm for a step of %llu us with a delay of %u ms", (unsigned long long)(d / 1000), M->anydelay);
	M->inside = false;
}
struct Src { struct pomp_evt *e; };
static std::function<void(int)> g_work;
static void work_cb(struct pomp_evt *, void *ud)
{
	if (!g_ran) { g_ran = true; step_begin(); g_stepdelay = M->delay; }
	g_work((int)(intptr_t)ud);
	g_end = now();
}
static int round_(int timeout)
{
	g_ran = false;
	int r = pomp_loop_wait_and_process(L, timeout);
	MC_CHECK(r == 0 || r == -ETIMEDOUT, "processing the loop returned %d", r);
	/* after the last callback the step is over: no time passes inside the library */
	if (g_ran) step_end();
	return r;
}
static bool g_deep;                    /* one step, more preemptions */
static uint64_t dur(const char *what)
{
	static const uint64_t us[] = {0, 40000, 99999, 100000, 100001, 250000};
	static const uint64_t few[] = {0, 99999, 100000, 250000};
	return thorough() || g_deep ? us[pick(6, what)] * 1000 : few[pick(4, what)] * 1000;
}
static void setup()
{
	int poll = pick(2, "loop implementation");
	pomp_internal_set_loop_impl(poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	pomp_evt_set_ops(poll ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
	L = pomp_loop_new(); MC_CHECK(L, "pomp_loop_new failed");
}
static void finish(std::vector<Src> &s)
{
	for (auto &x : s) MC_CHECK(pomp_evt_detach_from_loop(x.e, L) == 0 && pomp_evt_destroy(x.e) == 0, "removal failed");
	int r = pomp_loop_destroy(L);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d", r);
	M->enabled = false;
	uint64_t t = now(); simk::advance(1000 * MS); (void)t;
}
static std::vector<Src> sources(int n)
{
	std::vector<Src> v;
	for (int i = 0; i < n; i++) { Src s; s.e = pomp_evt_new(); MC_CHECK(s.e, "no event"); MC_CHECK(pomp_evt_attach_to_loop(s.e, L, work_cb, (void *)(intptr_t)i) == 0, "attach failed"); v.push_back(s); }
	return v;
}
static void phase()
{
	/* position of the clock within its second */
	static const uint64_t ph[] = {0, 900000, 899999, 950000};
	simk::advance(ph[pick(thorough() || g_deep ? 4 : 2, "phase of the clock")] * 1000);
}

/* steps of all lengths, with waits between */
static void c16_steps()
{
	Mon mon; M = &mon;
	setup(); phase();
	auto s = sources(2);
	cfg.preempt = true; cfg.spurious = true;
	enable(100);
	int n = g_deep ? 1 : 2;
	for (int i = 0; i < n; i++) {
		int both = pick(2, "two callbacks in the step");
		uint64_t d0 = dur("duration"), d1 = both ? dur("duration of the second") : 0;
		g_work = [&](int k) { simk::advance(k ? d1 : d0); };
		MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed");
		if (both) MC_CHECK(pomp_evt_signal(s[1].e) == 0, "signal failed");
		round_(-1);
		switch (pick(3, "between the steps")) {
		case 0: break;
		case 1: round_(150); break;
		case 2: simk::advance(150 * MS); break;
		}
	}
	if (pick(2, "disabled at the end")) disable();
	finish(s);
}

/* enabled, disabled and changed anywhere, in callbacks too */
static void c16_switch()
{
	Mon mon; M = &mon;
	setup(); phase();
	auto s = sources(1);
	cfg.preempt = true;
	auto toggle = [&](const char *what) {
		switch (pick(thorough() || g_deep ? 5 : 4, what)) {
		case 0: break;
		case 1: enable(100); break;
		case 2: disable(); break;
		case 3: disable(); enable(200); break;
		case 4: enable(30); break;
		}
	};
	int n = g_deep ? 1 : 2;
	if (pick(2, "enabled at first")) enable(100);
	for (int i = 0; i < n; i++) {
		g_work = [&](int) {
			simk::advance((pick(2, "before") ? 60 : 0) * MS);
			toggle("in the callback");
			static const uint64_t d[] = {0, 60, 250}; simk::advance(d[pick(3, "after")] * MS);
		};
		MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed");
		round_(-1);
		if (i < n - 1) toggle("between the steps");
		if (pick(2, "waits")) round_(300);
	}
	finish(s);
}

/* work in descriptors, timers and idle functions counts as well */
static void c16_sources()
{
	Mon mon; M = &mon;
	setup();
	cfg.preempt = true;
	enable(50);
	uint64_t d = dur("duration");
	g_work = [&](int) { simk::advance(d); };
	int kind = pick(3, "source");
	struct pomp_timer *t = nullptr; int fd = -1;
	static bool once; once = false;
	std::vector<Src> none;
	if (kind == 0) { t = pomp_timer_new(L, [](struct pomp_timer *, void *) { work_cb(nullptr, nullptr); }, nullptr); MC_CHECK(t && pomp_timer_set(t, 200) == 0, "timer failed"); }
	if (kind == 1) { fd = simk::env_eventfd(); simk::env_eventfd_write(fd, 1); MC_CHECK(pomp_loop_add(L, fd, POMP_FD_EVENT_IN, [](int f, uint32_t, void *) { simk::env_eventfd_read(f); work_cb(nullptr, nullptr); }, nullptr) == 0, "add failed"); }
	if (kind == 2) MC_CHECK(pomp_loop_idle_add(L, [](void *) { work_cb(nullptr, nullptr); }, nullptr) == 0, "idle failed");
	round_(-1);
	MC_CHECK(g_end, "nothing was processed");
	round_(100);
	if (t) MC_CHECK(pomp_timer_destroy(t) == 0, "timer_destroy failed");
	if (fd >= 0) { MC_CHECK(pomp_loop_remove(L, fd) == 0, "remove failed"); simk::env_close_fd(fd); }
	finish(none);
}

/* the wall clock is set while the loop waits and works */
static void c16_wall()
{
	Mon mon; M = &mon;
	setup();
	auto s = sources(1);
	cfg.preempt = true;
	enable(100);
	uint64_t d = dur("duration");
	int jump = pick(3, "the clock is set"), when = pick(2, "during the step");
	auto doit = [&] { if (jump == 1) simk::wall += 3600ull * 1000 * MS; else if (jump == 2) simk::wall -= 3600ull * 1000 * MS; };
	g_work = [&](int) { simk::advance(10 * MS); if (when) doit(); simk::advance(d); };
	MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed");
	if (!when) doit();
	round_(-1);
	round_(200);
	finish(s);
}

/* delays of every magnitude, steps just below and above them, at every phase of the clock */
static void c16_delays()
{
	Mon mon; M = &mon;
	setup();
	auto s = sources(1);
	cfg.preempt = true;
	static const uint64_t ph[] = {0, 1, 400000, 499999, 500000, 500001, 999000, 999999};
	simk::advance(ph[pick(8, "phase of the clock")] * 1000);
	static const uint32_t D[] = {1, 2, 500, 999, 1000, 1001, 1500, 1999, 2000, 2001, 4294, 4295, 10000, 60000, 2147484, 4294968, 2147483647u, 2147483648u, 4294967295u};
	uint32_t d = D[pick(19, "delay")];
	enable(d);
	for (int i = 0; i < 2; i++) {
		static const int64_t off[] = {-1000000, -500000, -1, 0, 1, 1000000};
		int64_t len = (int64_t)d * 1000 + off[pick(6, "length")];
		uint64_t ns = len < 0 ? 0 : (uint64_t)len * 1000;
		g_work = [&](int) { simk::advance(ns); };
		MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed");
		round_(-1);
		if (i == 0 && pick(2, "changed")) { d = d == 1500 ? 2500 : 1500; enable(d); }
		count(1);
	}
	if (pick(2, "disabled at the end")) disable();
	finish(s);
}

/* failures when it is enabled; the calls can be repeated in any order */
static void c16_calls()
{
	Mon mon; M = &mon;
	setup();
	auto s = sources(1);
	cfg.preempt = true;
	for (int i = 0; i < (thorough() ? 6 : 5); i++) {
		switch (pick(6, "operation")) {
		case 0: {
			cfg.faults = simk::F_PTHREAD; cfg.maxfaults = 1; int f0 = simk::faults_injected;
			M->gen++; bool was = M->enabled; M->enabled = true; M->delay = 100;
			int r = pomp_loop_watchdog_enable(L, 100, alarm_cb, (void *)(intptr_t)M->gen);
			cfg.faults = 0;
			note("  enable = %d", r);
			if (r != 0) { MC_CHECK(simk::faults_injected > f0, "pomp_loop_watchdog_enable returned %d", r); M->enabled = false; M->must = false; (void)was; }
			break; }
		case 1: disable(); break;
		case 2: MC_CHECK(pomp_loop_watchdog_enable(L, 0, alarm_cb, nullptr) == -EINVAL && pomp_loop_watchdog_enable(L, 10, nullptr, nullptr) == -EINVAL && pomp_loop_watchdog_enable(nullptr, 10, alarm_cb, nullptr) == -EINVAL, "wrong arguments are accepted"); break;
		case 3: g_work = [&](int) { simk::advance(150 * MS); }; MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed"); round_(-1); break;
		case 4: g_work = [&](int) { simk::advance(10 * MS); }; MC_CHECK(pomp_evt_signal(s[0].e) == 0, "signal failed"); round_(-1); break;
		case 5: round_(130); break;
		}
	}
	finish(s);
}

static Reg reg([] {
	add("C16", "steps", [] { g_deep = false; c16_steps(); }, 1, 1);
	add("C16", "steps-deep", [] { g_deep = true; c16_steps(); }, 2, 3);
	add("C16", "switch", [] { g_deep = false; c16_switch(); }, 1, 1);
	add("C16", "switch-deep", [] { g_deep = true; c16_switch(); }, 2, 4);
	add("C16", "sources", [] { g_deep = false; c16_sources(); }, 3, 4);
	add("C16", "wall", [] { g_deep = false; c16_wall(); }, 2, 3);
	add("C16", "delays", c16_delays, 0, 1);
	add("C16", "calls", [] { g_deep = false; c16_calls(); }, 1, 2);
});

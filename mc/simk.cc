#include "simk.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <netdb.h>
#include <pthread.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <algorithm>
#include <unordered_map>

#ifdef MC_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

using namespace mc;

namespace simk {

Cfg cfg;
uint64_t syscalls;
int faults_injected;
std::function<bool()> on_idle;
std::vector<Dgram> dgrams;
int env_pid;
std::vector<Ev> events;
std::set<std::string> vfs;
std::map<std::string, unsigned> vfs_mode;
std::map<std::string, std::string> env;
std::function<int(Sock *, const Addr &)> connect_policy, bind_policy;

static uint64_t g_now;
static int g_port;

/* ------------------------------------------------------------------ heap */
struct Alloc { size_t n; uint64_t serial; };
static std::unordered_map<const void *, Alloc> g_allocs;
static uint64_t g_serial;

bool is_lib_alloc(const void *p) { return g_allocs.count(p) != 0; }
size_t lib_allocs() { return g_allocs.size(); }
uint64_t lib_malloc_count() { return g_serial; }
std::string describe_allocs()
{
	std::vector<std::pair<uint64_t, size_t>> v;
	for (auto &a : g_allocs) v.push_back({a.second.serial, a.second.n});
	std::sort(v.begin(), v.end());
	std::string s; char b[64];
	for (size_t i = 0; i < v.size() && i < 8; i++) { snprintf(b, sizeof(b), " #%llu(%zu bytes)", (unsigned long long)v[i].first, v[i].second); s += b; }
	return s;
}

/* ------------------------------------------------------------------ fds */
struct Fd { File *f = nullptr; bool cloexec = false; bool lib = false; };
static std::vector<Fd> g_fd;
static std::vector<File *> g_files;
static std::vector<Sock *> g_socks;
struct Epoll;
static std::vector<Epoll *> g_epolls;
static const int FD0 = 3;

struct Pipe : File { bool wr; Pipe *other; Bytes *buf; bool *wopen, *ropen;
	uint32_t mask() override { if (wr) return (cfg.pipe_cap - buf->size() >= 1 ? EPOLLOUT : 0) | (*ropen ? 0 : EPOLLERR);
		return (buf->size() ? EPOLLIN : 0) | (*wopen ? 0 : EPOLLHUP); }
	void last_close() override { if (wr) *wopen = false; else *ropen = false; } };
struct EventFd : File { uint64_t v = 0; bool sem = false;
	uint32_t mask() override { return (v ? EPOLLIN : 0) | (v < 0xfffffffffffffffeull ? EPOLLOUT : 0); } };
struct TimerFd : File { uint64_t next = 0, period = 0; uint64_t exp = 0; int clock = 0;
	void upd() { if (next && g_now >= next) { if (period) { uint64_t k = (g_now - next) / period + 1; exp += k; next += k * period; } else { exp++; next = 0; } } }
	uint32_t mask() override { upd(); return exp ? EPOLLIN : 0; } };
struct Dummy : File { uint32_t m = EPOLLIN | EPOLLOUT; uint32_t mask() override { return m; } };
struct Epoll : File { struct Ent { int fd; File *f; uint32_t ev; epoll_data_t d; bool oneshot_off; }; std::vector<Ent> ents;
	uint32_t mask() override { for (auto &e : ents) if (e.f->mask() & (e.ev | EPOLLERR | EPOLLHUP)) return EPOLLIN; return 0; }
	void last_close() override { ents.clear(); } };

static std::vector<TimerFd *> g_timerfds;
static std::vector<std::pair<uint64_t, std::function<void()>>> g_at;
struct PTimer { bool used = false; bool ever = false; uint64_t next = 0, period = 0; int signo; sigval val; };
static std::vector<PTimer> g_ptimers;
static std::map<int, struct sigaction> g_sigact;
static std::deque<std::pair<int, int>> g_sigpend;  /* signo, timer */

File *file_of(int fd) { return fd >= 0 && (size_t)fd < g_fd.size() ? g_fd[fd].f : nullptr; }
Sock *sock_of(int fd) { File *f = file_of(fd); return f && f->type == File::SOCK ? (Sock *)f : nullptr; }
bool fd_is_lib(int fd) { return file_of(fd) && g_fd[fd].lib; }
bool fd_cloexec(int fd) { return file_of(fd) && g_fd[fd].cloexec; }

template<class T> static T *newfile(File::Type t) { T *f = new T(); f->type = t; f->id = (int)g_files.size(); g_files.push_back(f); return f; }

static int install(File *f, bool lib, bool cloexec, int from = FD0)
{
	int fd = from;
	if (from == FD0 && cfg.zero > 0 && --cfg.zero == 0) { fd = 0; mc::note("    descriptor 0 is a new object of type %d", (int)f->type); }
	while ((size_t)fd < g_fd.size() && g_fd[fd].f) fd++;
	if ((size_t)fd >= g_fd.size()) g_fd.resize(fd + 1);
	g_fd[fd] = Fd{f, cloexec, lib};
	f->refs++;
	return fd;
}

File *env_ref(File *f) { f->refs++; return f; }
void env_unref(File *f)
{
	if (--f->refs > 0) return;
	f->last_close();
	for (Epoll *e : g_epolls)
		e->ents.erase(std::remove_if(e->ents.begin(), e->ents.end(), [&](Epoll::Ent &x) { return x.f == f; }), e->ents.end());
}
static void drop_fd(int fd)
{
	File *f = g_fd[fd].f;
	g_fd[fd] = Fd();
	env_unref(f);
}

int open_lib_fds() { int n = 0; for (auto &f : g_fd) if (f.f && f.lib) n++; return n; }
std::string describe_lib_fds()
{
	static const char *nm[] = {"socket", "pipe", "eventfd", "timerfd", "epoll", "passed"};
	std::string s;
	for (size_t i = 0; i < g_fd.size(); i++) if (g_fd[i].f && g_fd[i].lib) s += " " + std::to_string(i) + "(" + nm[g_fd[i].f->type] + ")";
	return s;
}

/* ------------------------------------------------------------------ threads */
struct Fiber {
	ucontext_t ctx; char *stack = nullptr; size_t stacksz = 0;
	std::function<void()> fn; std::function<bool()> ready; uint64_t deadline = UINT64_MAX;
	bool blocked = false, done = false, lib = false, joined = false, used = false;
	int err = 0; const char *name = ""; const char *what = "";
	void *fake = nullptr; void *(*start)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
	bool timedout = false;
};
static const int MAXF = 10;
uint64_t wall;
std::function<void()> async_signal; int async_left; static bool g_insig;
static Fiber g_fib[MAXF];
static int g_cur, g_nfib = 1;
static char *g_stacks[MAXF];
static const size_t STK = 512 * 1024;
static const void *g_mainstk; static size_t g_mainstksz;

extern "C" { void mc_rt_switch(int tid) __attribute__((weak)); void mc_rt_fork(int child) __attribute__((weak)); void mc_rt_join(int child) __attribute__((weak)); void mc_rt_acquire(const void *o) __attribute__((weak)); void mc_rt_release(const void *o) __attribute__((weak)); void mc_rt_reset() __attribute__((weak)); void mc_rt_free(void *p, size_t n) __attribute__((weak)); void mc_rt_alloc(void *p, size_t n) __attribute__((weak)); void mc_rt_kwrite(const void *p, size_t n) __attribute__((weak)); void mc_rt_access(const void *p, size_t n, int w) __attribute__((weak)); }
static void kwrite(const void *p, size_t n) { if (mc_rt_kwrite && n) mc_rt_kwrite(p, n); }
static void kread(const void *p, size_t n) { if (mc_rt_access && n) mc_rt_access(p, n, 0); }
void hb_acquire(const void *o) { if (mc_rt_acquire) mc_rt_acquire(o); }
void hb_release(const void *o) { if (mc_rt_release) mc_rt_release(o); }

bool in_threads() { return g_nfib > 1; }
int self() { return g_cur; }

static void switch_to(int n)
{
	if (n == g_cur) return;
	int o = g_cur;
	g_fib[o].err = errno;
	g_cur = n;
	if (mc_rt_switch) mc_rt_switch(n);
#ifdef MC_ASAN
	const void *bot = n == 0 ? g_mainstk : g_fib[n].stack;
	size_t sz = n == 0 ? g_mainstksz : STK;
	__sanitizer_start_switch_fiber(g_fib[o].done ? nullptr : &g_fib[o].fake, bot, sz);
#endif
	swapcontext(&g_fib[o].ctx, &g_fib[n].ctx);
#ifdef MC_ASAN
	const void *ob; size_t os;
	__sanitizer_finish_switch_fiber(g_fib[o].fake, &ob, &os);
#endif
	errno = g_fib[g_cur].err;
}

static void fire_timers();
static uint64_t next_time()
{
	uint64_t t = UINT64_MAX;
	for (auto *x : g_timerfds) if (x->refs > 0) { x->upd(); if (x->next && x->next < t) t = x->next; }
	for (auto &p : g_ptimers) if (p.used && p.next && p.next < t) t = p.next;
	for (auto &a : g_at) if (a.first < t) t = a.first;
	for (Sock *s : g_socks) if (s->st == Sock::CONNECTING && s->complete_at && s->complete_at < t) t = s->complete_at;
	return t;
}

static bool fib_enabled(int i)
{
	Fiber &f = g_fib[i];
	if (!f.used || f.done) return false;
	if (!f.blocked) return true;
	if (f.ready && f.ready()) return true;
	return g_now >= f.deadline;
}

static void deliver_signals();

/* picks the next fiber to run when the current one cannot */
static void reschedule()
{
	for (;;) {
		int en[MAXF], n = 0;
		for (int i = 0; i < g_nfib; i++) if (fib_enabled(i)) en[n++] = i;
		if (n) {
			int c = n > 1 ? pick(n, "next thread") : 0;
			switch_to(en[c]);
			return;
		}
		bool un = false;
		for (Sock *s : g_socks) if (s->txblock) { s->txblock = false; un = true; }
		if (un) continue;
		if (on_idle && on_idle()) { if (++syscalls > cfg.horizon) fail("livelock: the environment keeps being asked for progress"); continue; }
		uint64_t t = next_time();
		for (int i = 0; i < g_nfib; i++) if (g_fib[i].used && !g_fib[i].done && g_fib[i].blocked) t = std::min(t, g_fib[i].deadline);
		if (t == UINT64_MAX) {
			std::string s;
			for (int i = 0; i < g_nfib; i++) if (g_fib[i].used && !g_fib[i].done) s += std::string(" ") + g_fib[i].name + ":" + g_fib[i].what;
			fail("deadlock: every thread is blocked for ever (%s )", s.c_str());
		}
		if (t > g_now) g_now = t;
		fire_timers();
	}
}

void block_until(std::function<bool()> ready, uint64_t deadline, const char *what)
{
	Fiber &f = g_fib[g_cur];
	f.ready = ready; f.deadline = deadline; f.blocked = true; f.what = what;
	if (!fib_enabled(g_cur) || (g_nfib > 1)) {
		/* when ready at once there is nothing to wait for */
		if (!(ready && ready()) && !(g_now >= deadline)) reschedule();
	}
	f.blocked = false; f.ready = nullptr; f.deadline = UINT64_MAX;
}

void yield_point(const char *what)
{
	if (async_left > 0 && g_cur == 0 && !g_insig && dev(2, "signal")) {
		int e = errno;
		async_left--; g_insig = true;
		note("      a signal arrives at %s", what);
		async_signal();
		g_insig = false; errno = e;
	}
	if (g_nfib <= 1 || !cfg.preempt) return;
	int en[MAXF], n = 0;
	en[n++] = g_cur;
	for (int i = 0; i < g_nfib; i++) if (i != g_cur && fib_enabled(i)) en[n++] = i;
	if (n <= 1) return;
	int c = dev(n, what);
	if (c) { note("      preempted at %s: thread %s runs", what, g_fib[en[c]].name); switch_to(en[c]); }
}

static void fiber_main()
{
#ifdef MC_ASAN
	const void *ob; size_t os;
	__sanitizer_finish_switch_fiber(nullptr, &ob, &os);
	if (!g_mainstk) { g_mainstk = ob; g_mainstksz = os; }
#endif
	Fiber &f = g_fib[g_cur];
	errno = 0;
	if (f.start) f.ret = f.start(f.arg); else f.fn();
	f.done = true;
	hb_release(&f);
	reschedule();
	abort();
}

static int newfiber(const char *name)
{
	if (g_nfib >= MAXF) fail("too many threads");
	int i = g_nfib++;
	Fiber &f = g_fib[i];
	f = Fiber();
	f.used = true; f.name = name;
	if (!g_stacks[i]) g_stacks[i] = (char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	f.stack = g_stacks[i];
	getcontext(&f.ctx);
	f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STK; f.ctx.uc_link = nullptr;
	makecontext(&f.ctx, fiber_main, 0);
	if (mc_rt_fork) mc_rt_fork(i);
	return i;
}

int spawn(std::function<void()> fn, const char *name)
{
	int i = newfiber(name);
	g_fib[i].fn = fn;
	yield_point("spawn");
	return i;
}
void join(int t)
{
	block_until([t] { return g_fib[t].done; }, UINT64_MAX, "join");
	hb_acquire(&g_fib[t]);
	if (mc_rt_join) mc_rt_join(t);
	g_fib[t].joined = true;
}

/* ------------------------------------------------------------------ time */
uint64_t now() { return g_now; }
void at(uint64_t t, std::function<void()> fn) { g_at.push_back({t, fn}); }

static void complete_connect(Sock *s)
{
	int err = s->complete_err;
	if (!err) {
		Sock *l = s->complete_to;
		if (!l || l->st != Sock::LISTEN) l = find_listener(s->domain, SOCK_STREAM, s->remote);
		if (!l || (int)l->backlog.size() >= l->backlog_max) err = l ? ETIMEDOUT : ECONNREFUSED;
		else {
			Sock *a = newfile<Sock>(File::SOCK); g_socks.push_back(a);
			a->domain = s->domain; a->stype = s->stype; a->lib = l->lib; a->cap = cfg.cap;
			a->st = Sock::CONNECTED; a->local = s->domain == AF_UNIX ? l->local : s->remote;
			a->remote = s->local; a->peer = s; s->peer = a; s->cap = cfg.cap;
			a->ppid = s->pid; a->puid = s->uid; a->pgid = s->gid;
			s->ppid = l->pid; s->puid = l->uid; s->pgid = l->gid;
			a->pid = l->pid; a->uid = l->uid; a->gid = l->gid;
			a->refs = 1;      /* held by the backlog */
			s->st = Sock::CONNECTED;
			l->backlog.push_back(a);
		}
	}
	if (err) { s->st = Sock::FAILED; s->so_error = err; }
	s->complete_at = 0;
}

static void fire_timers()
{
	bool again = true;
	while (again) {
		again = false;
		for (size_t i = 0; i < g_at.size(); i++) if (g_at[i].first <= g_now) {
			auto fn = g_at[i].second; g_at.erase(g_at.begin() + i); fn(); again = true; break;
		}
	}
	for (size_t i = 0; i < g_socks.size(); i++) { Sock *s = g_socks[i]; if (s->st == Sock::CONNECTING && s->complete_at && s->complete_at <= g_now) complete_connect(s); }
	for (size_t i = 0; i < g_ptimers.size(); i++) {
		PTimer &p = g_ptimers[i];
		if (p.used && p.next && p.next <= g_now) {
			if (p.period) p.next += ((g_now - p.next) / p.period + 1) * p.period; else p.next = 0;
			bool pend = false;
			for (auto &q : g_sigpend) if (q.second == (int)i) pend = true;  /* overrun */
			if (!pend) g_sigpend.push_back({p.signo, (int)i});
		}
	}
}

static int g_sigs_delivered;
static void deliver_signals()
{
	while (!g_sigpend.empty()) {
		auto s = g_sigpend.front(); g_sigpend.pop_front();
		auto it = g_sigact.find(s.first);
		if (it == g_sigact.end()) fail("signal %d delivered without a handler (process killed)", s.first);
		siginfo_t si; memset(&si, 0, sizeof(si));
		si.si_signo = s.first; si.si_code = SI_TIMER; si.si_value = g_ptimers[s.second].val;
		int e = errno;
		g_sigs_delivered++;
		if (it->second.sa_flags & SA_SIGINFO) it->second.sa_sigaction(s.first, &si, nullptr); else if (it->second.sa_handler != SIG_IGN) it->second.sa_handler(s.first);
		errno = e;
	}
}

void advance(uint64_t ns)
{
	uint64_t target = g_now + ns;
	if (g_nfib > 1) {
		block_until([] { return false; }, target, "computing");
		fire_timers();
		deliver_signals();
		return;
	}
	for (;;) {
		uint64_t t = next_time();
		if (t > target) break;
		if (t > g_now) g_now = t;
		fire_timers();
		deliver_signals();
	}
	g_now = target;
	fire_timers();
	deliver_signals();
}

/* ------------------------------------------------------------------ sockets */
Addr mkaddr(const void *sa, size_t len) { return Addr((const char *)sa, len); }
static int famof(const Addr &a) { return a.size() >= 2 ? ((const sockaddr *)a.data())->sa_family : -1; }
Addr in4(uint32_t ip, uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(ip); return mkaddr(&a, sizeof(a)); }
Addr in6(uint16_t port) { sockaddr_in6 a; memset(&a, 0, sizeof(a)); a.sin6_family = AF_INET6; a.sin6_port = htons(port); a.sin6_addr = in6addr_loopback; return mkaddr(&a, sizeof(a)); }
Addr un(const char *p)
{
	sockaddr_un a; memset(&a, 0, sizeof(a)); a.sun_family = AF_UNIX;
	size_t n = strlen(p); memcpy(a.sun_path, p, n);
	if (p[0] == '@') { a.sun_path[0] = 0; return mkaddr(&a, offsetof(sockaddr_un, sun_path) + n); }
	return mkaddr(&a, offsetof(sockaddr_un, sun_path) + n + 1);
}
/* canonical form for comparison: unix path names end at the NUL */
static Addr canon(const Addr &a)
{
	if (famof(a) == AF_UNIX && a.size() > 2 && a[2] != 0) { size_t e = a.find('\0', 2); return e == Addr::npos ? a : a.substr(0, e); }
	return a;
}
static std::string un_path(const Addr &a) { if (famof(a) != AF_UNIX || a.size() <= 2 || a[2] == 0) return ""; Addr c = canon(a); return c.substr(2); }
static uint16_t portof(const Addr &a)
{
	if (famof(a) == AF_INET && a.size() >= sizeof(sockaddr_in)) return ntohs(((const sockaddr_in *)a.data())->sin_port);
	if (famof(a) == AF_INET6 && a.size() >= sizeof(sockaddr_in6)) return ntohs(((const sockaddr_in6 *)a.data())->sin6_port);
	return 0;
}
static bool isany(const Addr &a)
{
	if (famof(a) == AF_INET) return ((const sockaddr_in *)a.data())->sin_addr.s_addr == 0;
	if (famof(a) == AF_INET6) return !memcmp(&((const sockaddr_in6 *)a.data())->sin6_addr, &in6addr_any, 16);
	return false;
}
static void setport(Addr &a, uint16_t p)
{
	if (famof(a) == AF_INET) ((sockaddr_in *)&a[0])->sin_port = htons(p);
	if (famof(a) == AF_INET6) ((sockaddr_in6 *)&a[0])->sin6_port = htons(p);
}
static bool addr_match(const Addr &bound, const Addr &to)
{
	if (famof(bound) != famof(to)) return false;
	if (famof(to) == AF_UNIX) return canon(bound) == canon(to);
	if (portof(bound) != portof(to)) return false;
	if (isany(bound)) return true;
	if (famof(to) == AF_INET) return ((const sockaddr_in *)bound.data())->sin_addr.s_addr == ((const sockaddr_in *)to.data())->sin_addr.s_addr;
	return !memcmp(&((const sockaddr_in6 *)bound.data())->sin6_addr, &((const sockaddr_in6 *)to.data())->sin6_addr, 16);
}
Sock *find_listener(int domain, int stype, const Addr &a)
{
	for (Sock *s : g_socks)
		if (s->domain == domain && s->stype == stype && s->refs > 0 && (stype == SOCK_DGRAM ? !s->local.empty() : s->st == Sock::LISTEN) && addr_match(s->local, a)) {
			if (domain == AF_UNIX && !un_path(a).empty() && !vfs.count(un_path(a))) continue;
			return s;
		}
	return nullptr;
}

static size_t rxspace(Sock *r) { return r->rxbytes >= r->cap ? 0 : r->cap - r->rxbytes; }
size_t Sock::space() { return peer ? rxspace(peer) : SIZE_MAX; }

uint32_t Sock::mask()
{
	uint32_t m = 0;
	if (stype == SOCK_DGRAM) {
		if (!rx.empty()) m |= EPOLLIN;
		if (!txblock) m |= EPOLLOUT;
		if (so_error) m |= EPOLLERR;
		return m;
	}
	switch (st) {
	case NEW: return EPOLLOUT | EPOLLHUP;
	case LISTEN: return backlog.empty() ? 0 : EPOLLIN;
	case CONNECTING: return 0;
	case FAILED: return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (so_error ? EPOLLERR : 0);
	case CLOSED: return EPOLLHUP;
	case CONNECTED: break;
	}
	if (so_error) m |= EPOLLERR;
	if (rst) m |= EPOLLHUP | EPOLLIN | EPOLLRDHUP | EPOLLOUT;
	if (!rx.empty()) m |= EPOLLIN;
	if (fin || rdshut) m |= EPOLLIN | EPOLLRDHUP;
	if (domain == AF_UNIX) { if (hup || (fin && wrshut)) m |= EPOLLHUP; }
	else if (fin && wrshut) m |= EPOLLHUP;
	if (!txblock && (hup || wrshut || space() > 0)) m |= EPOLLOUT;
	return m;
}

static void release_skb(Skb &k) { for (File *f : k.fds) env_unref(f); k.fds.clear(); }

void Sock::last_close()
{
	if (stype == SOCK_STREAM) {
		for (Sock *b : backlog) { if (b->peer) { b->peer->fin = b->peer->hup = true; b->peer->so_error = ECONNRESET; b->peer->rst = b->domain != AF_UNIX; b->peer->peer = nullptr; b->peer = nullptr; } b->st = CLOSED; }
		backlog.clear();
		if (peer) {
			bool unread = !rx.empty();
			peer->fin = true;
			peer->hup = true;
			if (unread && domain != AF_UNIX && wrshut && peer->wrshut) ; /* both directions are over: a reset finds nobody */
			else if (unread) { peer->so_error = peer->done ? EPIPE : ECONNRESET; if (domain != AF_UNIX) peer->rst = true; }
			else peer->done = domain != AF_UNIX;
			peer->peer = nullptr;
			peer = nullptr;
		}
	}
	for (auto &k : rx) release_skb(k);
	rx.clear(); rxbytes = 0;
	st = CLOSED;
}

static Sock *newsock(int domain, int type, bool lib)
{
	Sock *s = newfile<Sock>(File::SOCK);
	g_socks.push_back(s);
	s->domain = domain; s->stype = type; s->lib = lib; s->cap = cfg.cap;
	if (!lib) { s->pid = 4242; s->uid = 501; s->gid = 502; }
	return s;
}

/* pieces of a stream write */
static size_t stream_put(Sock *s, const char *p, size_t n, std::vector<File *> fds)
{
	Sock *r = s->peer;
	size_t done = 0;
	size_t sp = rxspace(r);
	if (n > sp) n = sp;
	if (s->domain != AF_UNIX) {
		if (n) {
			if (r->rx.empty()) r->rx.emplace_back();
			r->rx.back().data.append(p, n);
			r->rxbytes += n;
		}
		s->nwritten += n;
		return n;
	}
	bool first = true;
	while (done < n) {
		size_t k = std::min(n - done, cfg.skbmax);
		Skb b; b.data.assign(p + done, k);
		if (first) { b.fds = fds; for (File *f : fds) f->refs++; }
		first = false;
		r->rx.push_back(b);
		r->rxbytes += k;
		done += k;
	}
	s->nwritten += n;
	return n;
}

/* returns bytes, fills fds (references are handed over) */
static size_t stream_get(Sock *s, char *p, size_t max, std::vector<File *> *fds)
{
	size_t got = 0;
	while (got < max && !s->rx.empty()) {
		Skb &k = s->rx.front();
		size_t n = std::min(max - got, k.data.size() - k.off);
		memcpy(p + got, k.data.data() + k.off, n);
		k.off += n; got += n; s->rxbytes -= n;
		bool hadfds = !k.fds.empty();
		if (hadfds) {
			for (File *f : k.fds) fds->push_back(f);
			k.fds.clear();
		}
		if (k.off < k.data.size()) break;
		s->rx.pop_front();
		if (hadfds) break;
	}
	s->nread += got;
	return got;
}

/* ---- environment side ---- */
Sock *env_connect(const Addr &to, const Addr &from)
{
	int d = famof(to);
	Sock *l = find_listener(d, SOCK_STREAM, to);
	if (!l || (int)l->backlog.size() >= l->backlog_max) return nullptr;
	Sock *s = newsock(d, SOCK_STREAM, false);
	s->refs = 1; if (env_pid) { s->pid = env_pid; s->uid = env_pid + 1; s->gid = env_pid + 2; }
	s->remote = to;
	s->local = !from.empty() ? from : d == AF_INET ? in4(INADDR_LOOPBACK, g_port++) : d == AF_INET6 ? in6(g_port++) : Addr("\1\0", 2);
	s->st = Sock::CONNECTING; s->complete_err = 0; s->complete_to = l;
	complete_connect(s);
	return s;
}
Sock *env_listen(const Addr &a, int stype)
{
	Sock *s = newsock(famof(a), stype, false);
	s->refs = 1; s->local = a; if (env_pid) { s->pid = env_pid; s->uid = env_pid + 1; s->gid = env_pid + 2; }
	if (stype == SOCK_STREAM) s->st = Sock::LISTEN;
	if (!un_path(a).empty()) vfs.insert(un_path(a));
	return s;
}
Sock *env_accept(Sock *l)
{
	if (l->backlog.empty()) return nullptr;
	Sock *a = l->backlog.front(); l->backlog.pop_front();
	return a;
}
size_t env_send(Sock *s, const void *p, size_t n, std::vector<File *> fds)
{
	if (!s->peer || s->wrshut || s->st != Sock::CONNECTED) return 0;
	if (s->peer->rdshut) return n;
	return stream_put(s, (const char *)p, n, fds);
}
Bytes env_recv(Sock *s, size_t max, std::vector<File *> *fds)
{
	Bytes b;
	std::vector<File *> fl;
	while (b.size() < max && !s->rx.empty()) {
		char tmp[4096];
		size_t n = stream_get(s, tmp, std::min(sizeof(tmp), max - b.size()), &fl);
		if (!n) { if (s->rx.empty()) break; }
		b.append(tmp, n);
	}
	if (fds) *fds = fl; else for (File *f : fl) env_unref(f);
	return b;
}
void env_close(Sock *s) { if (s->refs > 0) env_unref(s); }
void env_shutdown_wr(Sock *s) { s->wrshut = true; if (s->peer) { s->peer->fin = true; s->peer->done = s->domain != AF_UNIX; } }
void env_reset(Sock *s)
{
	Sock *p = s->peer;
	if (p) { p->so_error = p->done ? EPIPE : ECONNRESET; p->fin = p->hup = true; if (p->domain != AF_UNIX) p->rst = true; p->peer = nullptr; s->peer = nullptr; }
	env_close(s);
}
void env_dgram(const Addr &from, const Addr &to, const void *p, size_t n)
{
	Sock *s = find_listener(famof(to), SOCK_DGRAM, to);
	if (!s) return;
	Skb k; k.data.assign((const char *)p, n); k.from = from; k.dst = to;
	s->rx.push_back(k); s->rxbytes += n;
}
int env_dummy_fd(int *id) { Dummy *d = newfile<Dummy>(File::DUMMY); if (id) *id = d->id; return install(d, false, false); }
void env_dummy_mask(int fd, uint32_t mask) { ((Dummy *)file_of(fd))->m = mask; }
void env_close_fd(int fd) { if (file_of(fd)) drop_fd(fd); }
static void mkpipe(Pipe **r, Pipe **w)
{
	Bytes *b = new Bytes(); bool *wo = new bool(true), *ro = new bool(true);
	*r = newfile<Pipe>(File::PIPE); *w = newfile<Pipe>(File::PIPE);
	for (Pipe *p : {*r, *w}) { p->buf = b; p->wopen = wo; p->ropen = ro; }
	(*r)->wr = false; (*w)->wr = true; (*r)->other = *w; (*w)->other = *r;
	(*w)->flags = O_WRONLY;
}
int env_pipe(int fds[2]) { Pipe *r, *w; mkpipe(&r, &w); fds[0] = install(r, false, false); fds[1] = install(w, false, false); return 0; }
int env_eventfd_at(int from) { EventFd *e = newfile<EventFd>(File::EVENTFD); e->flags = O_NONBLOCK; return install(e, false, false, from); }
int env_eventfd() { EventFd *e = newfile<EventFd>(File::EVENTFD); e->flags = O_NONBLOCK; return install(e, false, false); }
void env_eventfd_write(int fd, uint64_t v) { File *f = file_of(fd); if (f && f->type == File::EVENTFD) ((EventFd *)f)->v += v; }
uint64_t env_eventfd_read(int fd) { File *f = file_of(fd); uint64_t v = ((EventFd *)f)->v; ((EventFd *)f)->v = 0; return v; }
bool fd_readable(int fd) { File *f = file_of(fd); return f && (f->mask() & EPOLLIN); }

void lib_free(void *p);

/* ------------------------------------------------------------------ begin/end */
struct Mutex { int owner = -1; int count = 0; int type = 0; };
struct Cond { uint64_t seq = 0; int waiters = 0; std::deque<uint64_t *> q; int clock = CLOCK_REALTIME; };
static std::map<const void *, Mutex> g_mx;
static std::map<const void *, Cond> g_cv;
static std::map<const void *, int> g_cattr, g_mattr;

static void wipe()
{
	for (File *f : g_files) {
		if (f->type == File::PIPE) { Pipe *p = (Pipe *)f; if (!p->wr) { delete p->buf; delete p->wopen; delete p->ropen; } }
	}
	for (File *f : g_files) delete f;
	g_files.clear(); g_socks.clear(); g_epolls.clear(); g_timerfds.clear(); g_fd.clear();
	g_at.clear(); g_ptimers.clear(); g_sigact.clear(); g_sigpend.clear();
	dgrams.clear(); env_pid = 0; events.clear(); vfs.clear(); vfs_mode.clear(); env.clear();
	g_mx.clear(); g_cv.clear(); g_cattr.clear(); g_mattr.clear();
	on_idle = nullptr; connect_policy = nullptr; bind_policy = nullptr;
	for (auto &a : g_allocs) free((void *)a.first);
	g_allocs.clear();
}

void begin()
{
	wipe();
	cfg = Cfg();
	g_now = 1000000000ull; wall = 1500000000000000123ull; async_signal = nullptr; async_left = 0; g_insig = false; g_port = 40000; g_serial = 0; syscalls = 0; faults_injected = 0; g_sigs_delivered = 0;
	for (int i = 0; i < MAXF; i++) { g_fib[i].fn = nullptr; g_fib[i].ready = nullptr; g_fib[i].used = false; g_fib[i].done = false; g_fib[i].blocked = false; }
	g_nfib = 1; g_cur = 0; g_fib[0].used = true; g_fib[0].name = "main";
	if (mc_rt_reset) mc_rt_reset();
}

void check_quiescent(const char *when)
{
	if (open_lib_fds()) fail("%s: descriptors left open by the library:%s", when, describe_lib_fds().c_str());
	if (!g_allocs.empty()) fail("%s: %zu heap blocks leaked:%s", when, g_allocs.size(), describe_allocs().c_str());
	for (auto &p : g_ptimers) if (p.used) fail("%s: a kernel timer is left running", when);
}

void end()
{
	for (int i = 1; i < g_nfib; i++)
		if (!g_fib[i].done) fail("end of scenario: thread %s still runs (%s)", g_fib[i].name, g_fib[i].what);
	if (!cfg.allow_leak) check_quiescent("end of scenario");
	observe(g_now);
}

static struct Init { Init() { mc::set_hooks(begin, end); } } g_init;

} /* namespace simk */

using namespace simk;

/* ================================================================== libc */
#define SYS(name) do { if (++syscalls > cfg.horizon) fail("livelock: more than %llu system calls (last: %s)", (unsigned long long)cfg.horizon, name); yield_point(name); } while (0)
#define ERR(e) do { errno = (e); return -1; } while (0)

static bool flt(uint64_t call, std::initializer_list<int> errs, const char *what)
{
	if (!(cfg.faults & call) || faults_injected >= cfg.maxfaults) return false;
	int c = dev((int)errs.size() + 1, what);
	if (!c) return false;
	faults_injected++;
	errno = errs.begin()[c - 1];
	note("      fault: %s fails with %s", what, strerror(errno));
	return true;
}

extern "C" {

/* ---- heap ---- */
static bool mfail() { if (!(cfg.faults & F_MALLOC) || faults_injected >= cfg.maxfaults) return false; if (!dev(2, "malloc")) return false; faults_injected++; note("      fault: allocation %llu fails", (unsigned long long)g_serial + 1); errno = ENOMEM; return true; }
static void *track(void *p, size_t n) { if (p) { g_allocs[p] = Alloc{n, ++g_serial}; if (mc_rt_alloc) mc_rt_alloc(p, n); } return p; }
void *sim_malloc(size_t n)
{
	if (mfail()) return NULL;
	if (n > (64ull << 20)) { errno = ENOMEM; return NULL; }
	void *p = malloc(n);
	if (p && n <= 65536) memset(p, 0xa5, n);   /* what an uninitialised block holds does not depend on the past */
	return track(p, n);
}
void *sim_calloc(size_t a, size_t b)
{
	if (mfail()) return NULL;
	if (a && b > (64ull << 20) / a) { errno = ENOMEM; return NULL; }
	void *p = calloc(a, b);
	return track(p, a * b);
}
void sim_free(void *p)
{
	if (!p) return;
	auto it = g_allocs.find(p);
	if (it != g_allocs.end()) { if (mc_rt_free) { size_t n = it->second.n; g_allocs.erase(it); mc_rt_free(p, n); return; } g_allocs.erase(it); }
	else if (mc_rt_free) fail("free of a block that is not allocated (double free?)");
	free(p);
}
void *sim_realloc(void *p, size_t n)
{
	if (!p) return sim_malloc(n);
	if (n == 0) { sim_free(p); return NULL; }
	if (mfail()) return NULL;
	if (n > (64ull << 20)) { errno = ENOMEM; return NULL; }
	auto it = g_allocs.find(p);
	if (it == g_allocs.end()) return realloc(p, n);
	void *q = malloc(n);
	if (!q) return NULL;
	track(q, n);
	memcpy(q, p, std::min(n, it->second.n));
	sim_free(p);
	return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (a && b > SIZE_MAX / a) { errno = ENOMEM; return NULL; } return sim_realloc(p, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(NULL, 0, fmt, a2); va_end(a2);
	if (n < 0) return -1;
	*out = (char *)sim_malloc(n + 1);
	if (!*out) return -1;
	return vsnprintf(*out, n + 1, fmt, ap);
}
int sim_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
int sim___asprintf_chk(char **out, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(out, fmt, ap); va_end(ap); return r; }
int sim___vasprintf_chk(char **out, int, const char *fmt, va_list ap) { return sim_vasprintf(out, fmt, ap); }

/* ---- logging ---- */
int sim_fprintf(FILE *, const char *, ...) { return 0; }
int sim___fprintf_chk(FILE *, int, const char *, ...) { return 0; }
int sim_vfprintf(FILE *, const char *, va_list) { return 0; }
int sim_printf(const char *, ...) { return 0; }
int sim_puts(const char *) { return 0; }
int sim_fputs(const char *, FILE *) { return 0; }
int sim_fputc(int c, FILE *) { return c; }
int sim_putc(int c, FILE *) { return c; }
size_t sim_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int sim_fflush(FILE *) { return 0; }
char *sim_getenv(const char *n) { auto it = simk::env.find(n); return it == simk::env.end() ? NULL : (char *)it->second.c_str(); }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }

/* ---- descriptors ---- */
int sim_close(int fd)
{
	SYS("close");
	File *f = file_of(fd);
	if (!f) {
		if (!cfg.allow_badclose) fail("close(%d): the descriptor is not open (closed twice?)", fd);
		ERR(EBADF);
	}
	if (!g_fd[fd].lib && !cfg.allow_badclose) fail("close(%d): the descriptor belongs to the application", fd);
	if (f->type == File::SOCK) events.push_back({"close", fd, 0, g_now});
	drop_fd(fd);
	return 0;
}
int sim_dup(int fd)
{
	SYS("dup");
	File *f = file_of(fd); if (!f) ERR(EBADF);
	if (flt(F_DUP, {EMFILE}, "dup")) return -1;
	return install(f, true, false);
}
int sim_dup2(int a, int b) { (void)a; (void)b; fail("dup2 not modelled"); }
int sim_dup3(int a, int b, int c) { (void)a; (void)b; (void)c; fail("dup3 not modelled"); }
int sim_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	SYS("fcntl");
	File *f = file_of(fd); if (!f) ERR(EBADF);
	switch (cmd) {
	case F_GETFD: if (flt(F_FCNTL, {EINVAL}, "fcntl")) return -1; return g_fd[fd].cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: if (flt(F_FCNTL, {EINVAL}, "fcntl")) return -1; g_fd[fd].cloexec = arg & FD_CLOEXEC; return 0;
	case F_GETFL: if (flt(F_FCNTL, {EINVAL}, "fcntl")) return -1; return f->flags | (f->type == File::SOCK ? O_RDWR : 0);
	case F_SETFL: if (flt(F_FCNTL, {EINVAL}, "fcntl")) return -1; f->flags = (f->flags & O_ACCMODE) | ((int)arg & (O_NONBLOCK | O_APPEND)); return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: if (flt(F_DUP, {EMFILE}, "fcntl(F_DUPFD)")) return -1; return install(f, true, cmd == F_DUPFD_CLOEXEC, std::max<int>((int)arg, FD0));
	}
	ERR(EINVAL);
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	SYS("ioctl");
	File *f = file_of(fd); if (!f) ERR(EBADF);
	if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
	if (req == FIOCLEX) { g_fd[fd].cloexec = true; return 0; }
	if (req == FIONREAD) { Sock *s = sock_of(fd); if (!s) ERR(ENOTTY); *(int *)arg = (int)(s->stype == SOCK_DGRAM ? (s->rx.empty() ? 0 : s->rx.front().data.size()) : s->rxbytes); return 0; }
	ERR(ENOTTY);
}

static int do_pipe(int fds[2], int flags)
{
	SYS("pipe");
	if (flt(F_PIPE, {EMFILE}, "pipe")) return -1;
	Pipe *r, *w; mkpipe(&r, &w);
	if (flags & O_NONBLOCK) { r->flags |= O_NONBLOCK; w->flags |= O_NONBLOCK; }
	fds[0] = install(r, true, flags & O_CLOEXEC); fds[1] = install(w, true, flags & O_CLOEXEC);
	return 0;
}
int sim_pipe(int fds[2]) { return do_pipe(fds, 0); }
int sim_pipe2(int fds[2], int flags) { return do_pipe(fds, flags); }
int sim_eventfd(unsigned int v, int flags)
{
	SYS("eventfd");
	if (flt(F_EVENTFD, {EMFILE}, "eventfd")) return -1;
	EventFd *e = newfile<EventFd>(File::EVENTFD);
	e->v = v; e->sem = flags & EFD_SEMAPHORE; if (flags & EFD_NONBLOCK) e->flags |= O_NONBLOCK;
	return install(e, true, flags & EFD_CLOEXEC);
}
int sim_timerfd_create(int clock, int flags)
{
	SYS("timerfd_create");
	if (flt(F_TIMERFD_CREATE, {EMFILE}, "timerfd_create")) return -1;
	TimerFd *t = newfile<TimerFd>(File::TIMERFD); t->clock = clock;
	if (flags & TFD_NONBLOCK) t->flags |= O_NONBLOCK;
	g_timerfds.push_back(t);
	return install(t, true, flags & TFD_CLOEXEC);
}
static bool tsbad(const timespec &t) { return t.tv_nsec < 0 || t.tv_nsec > 999999999 || t.tv_sec < 0; }
static uint64_t tsns(const timespec &t) { return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec; }
static timespec nsts(uint64_t n) { timespec t; t.tv_sec = n / 1000000000ull; t.tv_nsec = n % 1000000000ull; return t; }
int sim_timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
	SYS("timerfd_settime");
	File *f = file_of(fd); if (!f) ERR(EBADF); if (f->type != File::TIMERFD) ERR(EINVAL);
	if (tsbad(nv->it_value) || tsbad(nv->it_interval)) ERR(EINVAL);
	if (flt(F_TIMERFD_SETTIME, {EINVAL}, "timerfd_settime")) return -1;
	TimerFd *t = (TimerFd *)f; t->upd();
	if (ov) { ov->it_interval = nsts(t->period); ov->it_value = nsts(t->next ? t->next - g_now : 0); }
	uint64_t v = tsns(nv->it_value);
	t->exp = 0; t->period = tsns(nv->it_interval);
	t->next = v ? (flags & TFD_TIMER_ABSTIME ? v : g_now + v) : 0;
	return 0;
}
int sim_timerfd_gettime(int fd, struct itimerspec *ov)
{
	SYS("timerfd_gettime");
	File *f = file_of(fd); if (!f) ERR(EBADF); if (f->type != File::TIMERFD) ERR(EINVAL);
	TimerFd *t = (TimerFd *)f; t->upd();
	ov->it_interval = nsts(t->period); ov->it_value = nsts(t->next ? t->next - g_now : 0);
	return 0;
}
int sim_timer_create(clockid_t, struct sigevent *ev, timer_t *id)
{
	SYS("timer_create");
	if (flt(F_TIMER_CREATE, {EAGAIN}, "timer_create")) return -1;
	PTimer p; p.used = true; p.signo = ev ? ev->sigev_signo : SIGALRM; p.val = ev ? ev->sigev_value : sigval{};
	if (ev && ev->sigev_notify == SIGEV_NONE) p.signo = 0;
	g_ptimers.push_back(p);
	*id = (timer_t)(intptr_t)(g_ptimers.size() - 1);       /* kernel ids start at 0 */
	return 0;
}
int sim_timer_settime(timer_t id, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
	SYS("timer_settime");
	size_t i = (size_t)(intptr_t)id;
	if (i >= g_ptimers.size() || !g_ptimers[i].used) ERR(EINVAL);
	if (tsbad(nv->it_value) || tsbad(nv->it_interval)) ERR(EINVAL);
	if (flt(F_TIMER_SETTIME, {EINVAL}, "timer_settime")) return -1;
	PTimer &p = g_ptimers[i];
	if (ov) { ov->it_interval = nsts(p.period); ov->it_value = nsts(p.next ? p.next - g_now : 0); }
	uint64_t v = tsns(nv->it_value);
	p.period = tsns(nv->it_interval);
	p.next = v ? (flags & TIMER_ABSTIME ? v : g_now + v) : 0;
	return 0;
}
int sim_timer_delete(timer_t id)
{
	SYS("timer_delete");
	size_t i = (size_t)(intptr_t)id;
	if (i >= g_ptimers.size() || !g_ptimers[i].used) ERR(EINVAL);
	g_ptimers[i].used = false;
	for (size_t k = 0; k < g_sigpend.size();) if (g_sigpend[k].second == (int)i) g_sigpend.erase(g_sigpend.begin() + k); else k++;
	return 0;
}
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	SYS("sigaction");
	if (flt(F_SIGACTION, {EINVAL}, "sigaction")) return -1;
	if (o) { memset(o, 0, sizeof(*o)); if (g_sigact.count(s)) *o = g_sigact[s]; }
	if (a) g_sigact[s] = *a;
	return 0;
}
int sim_clock_gettime(clockid_t c, struct timespec *t) { bool w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE; *t = nsts(w ? g_now + wall : g_now); return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { uint64_t n = g_now + wall; tv->tv_sec = n / 1000000000ull; tv->tv_usec = n % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t *t) { time_t v = (g_now + wall) / 1000000000ull; if (t) *t = v; return v; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { advance(tsns(*a)); return 0; }
int sim_usleep(useconds_t u) { advance(u * 1000ull); return 0; }
unsigned sim_sleep(unsigned s) { advance(s * 1000000000ull); return 0; }

/* ---- files ---- */
int sim_unlink(const char *p) { SYS("unlink"); events.push_back({std::string("unlink ") + p, -1, 0, g_now}); note("      unlink %s", p); if (!vfs.erase(p)) ERR(ENOENT); vfs_mode.erase(p); return 0; }
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_unlinkat(int, const char *p, int) { return sim_unlink(p); }
int sim_chmod(const char *p, mode_t m) { SYS("chmod"); if (flt(F_CHMOD, {EPERM}, "chmod")) return -1; events.push_back({std::string("chmod ") + p, -1, (int)m, g_now}); if (!vfs.count(p)) ERR(ENOENT); vfs_mode[p] = m; return 0; }
int sim_fchmodat(int, const char *p, mode_t m, int) { return sim_chmod(p, m); }
static mode_t g_umask = 022;
mode_t sim_umask(mode_t m) { mode_t o = g_umask; g_umask = m & 0777; return o; }

/* ---- sockets ---- */
int sim_socket(int d, int type, int)
{
	SYS("socket");
	if (flt(F_SOCKET, {EMFILE}, "socket")) return -1;
	int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
	if ((d != AF_INET && d != AF_INET6 && d != AF_UNIX) || (t != SOCK_STREAM && t != SOCK_DGRAM)) ERR(EAFNOSUPPORT);
	Sock *s = newsock(d, t, true);
	if (type & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
	int fd = install(s, true, type & SOCK_CLOEXEC);
	events.push_back({"socket", fd, d, g_now});
	return fd;
}
int sim_socketpair(int d, int type, int, int sv[2])
{
	SYS("socketpair");
	if (flt(F_SOCKET, {EMFILE}, "socketpair")) return -1;
	int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
	if (d != AF_UNIX || t != SOCK_STREAM) ERR(EOPNOTSUPP);
	Sock *a = newsock(d, t, true), *b = newsock(d, t, true);
	a->peer = b; b->peer = a; a->st = b->st = Sock::CONNECTED; a->local = b->local = a->remote = b->remote = Addr("\1\0", 2);
	if (type & SOCK_NONBLOCK) { a->flags |= O_NONBLOCK; b->flags |= O_NONBLOCK; }
	sv[0] = install(a, true, type & SOCK_CLOEXEC); sv[1] = install(b, true, type & SOCK_CLOEXEC);
	return 0;
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	SYS("bind");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	events.push_back({"bind", fd, 0, g_now});
	if (flt(F_BIND, {EADDRNOTAVAIL, EADDRINUSE}, "bind")) return -1;
	Addr a = mkaddr(sa, len);
	if (bind_policy) { int e = bind_policy(s, a); if (e) ERR(e); }
	if (famof(a) != s->domain) ERR(EAFNOSUPPORT);
	if (!s->local.empty()) ERR(EINVAL);
	std::string p = un_path(a);
	if (!p.empty()) { if (vfs.count(p)) ERR(EADDRINUSE); }
	else for (Sock *o : g_socks) if (o != s && o->refs > 0 && !o->local.empty() && o->domain == s->domain && o->stype == s->stype && portof(a) && (o->st == Sock::LISTEN || o->stype == SOCK_DGRAM || o->st == Sock::NEW) && (addr_match(o->local, a) || addr_match(a, o->local))) ERR(EADDRINUSE);
	if (!p.empty()) { vfs.insert(p); vfs_mode[p] = 0777 & ~g_umask; }
	if (s->domain != AF_UNIX && portof(a) == 0) setport(a, g_port++);
	/* the kernel keeps path names with one NUL */
	if (!p.empty()) a = canon(a) + '\0';
	s->local = a;
	return 0;
}
int sim_listen(int fd, int backlog)
{
	SYS("listen");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	events.push_back({"listen", fd, backlog, g_now});
	if (flt(F_LISTEN, {EADDRINUSE}, "listen")) return -1;
	if (s->stype != SOCK_STREAM) ERR(EOPNOTSUPP);
	if (s->local.empty()) { if (s->domain == AF_UNIX) ERR(EINVAL); s->local = s->domain == AF_INET ? in4(0, g_port++) : in6(g_port++); }
	s->st = Sock::LISTEN;
	return 0;
}
static socklen_t copyaddr(const Addr &a, struct sockaddr *sa, socklen_t *len)
{
	if (sa && len) { memcpy(sa, a.data(), std::min<size_t>(*len, a.size())); *len = (socklen_t)a.size(); }
	return 0;
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
	SYS("accept");
	Sock *l = sock_of(fd); if (!l) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (l->st != Sock::LISTEN) ERR(EINVAL);
	if (flt(F_ACCEPT, {EMFILE, ECONNABORTED}, "accept")) {
		if (errno == ECONNABORTED && !l->backlog.empty()) { Sock *b = l->backlog.front(); l->backlog.pop_front(); env_unref(b); }
		return -1;
	}
	if (l->backlog.empty()) {
		if (l->flags & O_NONBLOCK) ERR(EAGAIN);
		block_until([l] { return !l->backlog.empty(); }, UINT64_MAX, "accept");
	}
	Sock *a = l->backlog.front(); l->backlog.pop_front();
	a->lib = true;
	if (flags & SOCK_NONBLOCK) a->flags |= O_NONBLOCK;
	int n = install(a, true, flags & SOCK_CLOEXEC);
	a->refs--;
	copyaddr(a->remote, sa, len);
	events.push_back({"accept", n, fd, g_now});
	return n;
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *len) { return do_accept(fd, sa, len, 0); }
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *len, int fl) { return do_accept(fd, sa, len, fl); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	SYS("connect");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	events.push_back({"connect", fd, 0, g_now});
	if (flt(F_CONNECT, {ECONNREFUSED, ENETUNREACH, EAGAIN}, "connect")) return -1;
	Addr a = mkaddr(sa, len);
	if (famof(a) != s->domain) ERR(EAFNOSUPPORT);
	if (s->stype == SOCK_DGRAM) { s->remote = a; return 0; }
	if (s->st == Sock::CONNECTED && s->domain != AF_UNIX) { if (s->pendconn) { s->pendconn = false; return 0; } ERR(EISCONN); }
	if (s->st == Sock::CONNECTING) ERR(EALREADY);
	if (s->st == Sock::FAILED && s->domain != AF_UNIX) { int e = s->so_error ? s->so_error : ECONNABORTED; s->so_error = 0; s->st = Sock::NEW; ERR(e); }
	int pol = connect_policy ? connect_policy(s, a) : 0;
	if (pol > 0) ERR(pol);
	if (s->domain != AF_UNIX) s->remote = a;
	if (s->local.empty()) s->local = s->domain == AF_UNIX ? Addr("\1\0", 2) : s->domain == AF_INET ? in4(INADDR_LOOPBACK, g_port++) : in6(g_port++);
	Sock *l = find_listener(s->domain, SOCK_STREAM, a);
	if (s->domain == AF_UNIX) {
		if (pol < 0) ERR(-pol);
		if (!l) ERR(!un_path(a).empty() && !vfs.count(un_path(a)) ? ENOENT : ECONNREFUSED);
		if ((int)l->backlog.size() >= l->backlog_max) ERR(EAGAIN);
		if (s->st == Sock::CONNECTED) ERR(EISCONN);
		s->remote = un_path(a).empty() ? a : canon(a) + '\0';
		s->complete_err = 0; s->complete_to = l; s->st = Sock::CONNECTING;
		complete_connect(s);
		return 0;
	}
	s->st = Sock::CONNECTING; s->complete_err = pol < 0 ? -pol : l ? 0 : ECONNREFUSED; s->complete_to = l;
	s->complete_at = g_now + 1000;
	if (!(s->flags & O_NONBLOCK)) { fail("blocking connect"); }
	if (cfg.connect_mode == 1 && !s->complete_err) { complete_connect(s); if (s->st == Sock::CONNECTED) return 0; ERR(s->so_error); }
	s->pendconn = true;
	ERR(EINPROGRESS);
}
int sim_shutdown(int fd, int how)
{
	SYS("shutdown");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (s->stype == SOCK_STREAM && (s->st != Sock::CONNECTED || (s->domain != AF_UNIX && (s->rst || (s->done && s->wrshut))))) ERR(ENOTCONN);
	if (flt(F_SHUTDOWN, {ENOTCONN}, "shutdown")) return -1;
	s->pendconn = false;
	if (how == SHUT_WR || how == SHUT_RDWR) { s->wrshut = true; if (s->peer) { s->peer->fin = true; s->peer->done = s->domain != AF_UNIX; } }
	if (how == SHUT_RD || how == SHUT_RDWR) { s->rdshut = true; }
	return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *len)
{
	SYS("getsockname");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (flt(F_GETSOCKNAME, {ENOBUFS}, "getsockname")) return -1;
	Addr a = s->local;
	if (a.empty()) a = s->domain == AF_UNIX ? Addr("\1\0", 2) : s->domain == AF_INET ? in4(0, 0) : in6(0);
	copyaddr(a, sa, len);
	return 0;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
	SYS("getpeername");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (flt(F_GETPEERNAME, {ENOTCONN}, "getpeername")) return -1;
	if (s->st != Sock::CONNECTED || (s->domain != AF_UNIX && (s->rst || (s->done && s->wrshut)))) ERR(ENOTCONN);
	copyaddr(s->remote, sa, len);
	return 0;
}
int sim_getsockopt(int fd, int lv, int name, void *v, socklen_t *len)
{
	SYS("getsockopt");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (flt(F_GETSOCKOPT, {ENOPROTOOPT}, "getsockopt")) return -1;
	Bytes out; int i = 0;
	if (lv == SOL_SOCKET && name == SO_ERROR) { i = s->so_error; s->so_error = 0; out.assign((char *)&i, 4); }
	else if (lv == SOL_SOCKET && name == SO_TYPE) { i = s->stype; out.assign((char *)&i, 4); }
	else if (lv == SOL_SOCKET && name == SO_PEERCRED) { struct ucred c; c.pid = s->ppid; c.uid = s->puid; c.gid = s->pgid; out.assign((char *)&c, sizeof(c)); }
	else if (s->opts.count({lv, name})) out = s->opts[{lv, name}];
	else out.assign((char *)&i, 4);
	size_t n = std::min<size_t>(*len, out.size());
	memcpy(v, out.data(), n); *len = (socklen_t)n;
	return 0;
}
int sim_setsockopt(int fd, int lv, int name, const void *v, socklen_t len)
{
	SYS("setsockopt");
	Sock *s = sock_of(fd); if (!s) ERR(file_of(fd) ? ENOTSOCK : EBADF);
	if (flt(F_SETSOCKOPT, {ENOPROTOOPT}, "setsockopt")) return -1;
	if (lv == IPPROTO_TCP && s->domain == AF_UNIX) ERR(EOPNOTSUPP);
	s->opts[{lv, name}] = Bytes((const char *)v, len);
	return 0;
}

/* ---- data transfer ---- */
/* answer chosen by the explorer for a transfer of up to n bytes (n > 0):
 * returns the size allowed, or -1 with errno set */
static ssize_t xfer(size_t n, bool nonblock, uint64_t f, bool stream, const char *what)
{
	size_t opt[8]; int err[8]; int k = 1;
	opt[0] = n; err[0] = 0;
	if (cfg.partial && stream && n > 1) {
		opt[k] = n - 1; err[k++] = 0;
		if (n > 2) { opt[k] = 1; err[k++] = 0; }
		if (n > 4) { opt[k] = n / 2; err[k++] = 0; }
	}
	if (cfg.eintr) { err[k++] = EINTR; }
	if (cfg.eagain && nonblock) { err[k++] = EAGAIN; }
	if ((cfg.faults & f) && faults_injected < cfg.maxfaults) { err[k++] = f == F_READ ? ECONNRESET : f == F_SENDTO ? ENETUNREACH : EPIPE; }
	int c = k > 1 ? dev(k, what) : 0;
	if (!c) return (ssize_t)n;
	if (err[c]) { if (err[c] != EINTR && err[c] != EAGAIN) { faults_injected++; note("      fault: %s fails with %s", what, strerror(err[c])); } errno = err[c]; return -1; }
	return (ssize_t)opt[c];
}

static size_t iovlen(const struct iovec *v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
static void scatter(const struct iovec *v, int c, const char *p, size_t n) { for (int i = 0; i < c && n; i++) { size_t k = std::min(n, v[i].iov_len); memcpy(v[i].iov_base, p, k); kwrite(v[i].iov_base, k); p += k; n -= k; } }
static Bytes gather(const struct iovec *v, int c) { Bytes b; for (int i = 0; i < c; i++) { kread(v[i].iov_base, v[i].iov_len); b.append((const char *)v[i].iov_base, v[i].iov_len); } return b; }

static ssize_t do_send(int fd, const struct iovec *v, int vc, int flags, const struct sockaddr *to, socklen_t tolen, const struct msghdr *mh, const char *what)
{
	SYS(what);
	File *f = file_of(fd); if (!f) ERR(EBADF);
	bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	size_t len = iovlen(v, vc);
	if (f->type == File::PIPE) {
		Pipe *p = (Pipe *)f; if (!p->wr) ERR(EBADF);
		if (!*p->ropen) { if (cfg.sigpipe_fatal) fail("SIGPIPE"); ERR(EPIPE); }
		while (cfg.pipe_cap - p->buf->size() < std::min<size_t>(len, 4096)) {
			if (nb) ERR(EAGAIN);
			block_until([p] { return p->buf->size() < cfg.pipe_cap; }, UINT64_MAX, "write to a full pipe");
		}
		if (cfg.eintr && dev(2, "write interrupted")) ERR(EINTR);
		p->buf->append(gather(v, vc)); hb_release(p->buf);
		return (ssize_t)len;
	}
	if (f->type == File::EVENTFD) {
		EventFd *e = (EventFd *)f; if (len < 8) ERR(EINVAL);
		uint64_t x; memcpy(&x, gather(v, vc).data(), 8); if (x == UINT64_MAX) ERR(EINVAL);
		if (cfg.eintr && dev(2, "write interrupted")) ERR(EINTR);
		if (e->v + x >= UINT64_MAX || e->v + x < e->v) { if (nb) ERR(EAGAIN); block_until([e] { return e->v == 0; }, UINT64_MAX, "write to a full eventfd"); }
		e->v += x; hb_release(e);
		return 8;
	}
	if (f->type != File::SOCK) ERR(EINVAL);
	Sock *s = (Sock *)f;
	std::vector<File *> fds;
	if (mh && mh->msg_control) {
		for (cmsghdr *c = CMSG_FIRSTHDR(mh); c; c = CMSG_NXTHDR((msghdr *)mh, c)) {
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
				size_t k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
				for (size_t i = 0; i < k; i++) { int x; kread(CMSG_DATA(c) + i * sizeof(int), sizeof(int)); memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof(int)); if (!file_of(x)) ERR(EBADF); fds.push_back(file_of(x)); }
			}
		}
		if (!fds.empty() && s->domain != AF_UNIX) fds.clear();
	}
	Bytes data = gather(v, vc);
	if (s->stype == SOCK_DGRAM) {
		Addr a = to ? mkaddr(to, tolen) : s->remote;
		if (a.empty()) ERR(EDESTADDRREQ);
		if (len > (s->domain == AF_INET ? 65507u : 65527u)) ERR(EMSGSIZE);
		if (s->so_error) { int e = s->so_error; s->so_error = 0; ERR(e); }
		if (s->txblock) ERR(EAGAIN);
		ssize_t r = xfer(len, nb, F_SENDTO, false, what);
		if (r < 0) { if (errno == EAGAIN) s->txblock = true; return -1; }
		if (s->local.empty()) s->local = s->domain == AF_INET ? in4(0, g_port++) : in6(g_port++);
		dgrams.push_back({s->local, a, data});
		note("      datagram of %zu bytes sent", data.size());
		Sock *d = find_listener(s->domain, SOCK_DGRAM, a);
		if (d) { Skb k; k.data = data; k.from = s->local; k.dst = a; if (isany(k.from)) { Addr x = s->domain == AF_INET ? in4(INADDR_LOOPBACK, portof(s->local)) : in6(portof(s->local)); k.from = x; } d->rx.push_back(k); d->rxbytes += data.size(); }
		return (ssize_t)len;
	}
	if (s->st != Sock::CONNECTED) { if (s->so_error) { int e = s->so_error; s->so_error = 0; ERR(e); } if (s->st == Sock::FAILED || s->st == Sock::NEW || s->st == Sock::CONNECTING) ERR(s->domain == AF_UNIX ? ENOTCONN : s->st == Sock::CONNECTING ? EAGAIN : EPIPE); ERR(ENOTCONN); }
	auto epipe = [&](int e) -> ssize_t { if (e == EPIPE && cfg.sigpipe_fatal && !(flags & MSG_NOSIGNAL)) fail("SIGPIPE kills the process"); errno = e; return -1; };
	if (s->domain != AF_UNIX && s->so_error) { int e = s->so_error; s->so_error = 0; return epipe(e); }
	if (s->wrshut) return epipe(EPIPE);
	if (s->domain == AF_UNIX) { if (s->hup || !s->peer) return epipe(EPIPE); }
	else {
		if (s->rst) return epipe(EPIPE);
		if (!s->peer) { /* first write after the peer closed: accepted, answered by a reset */
			s->rst = true; s->so_error = EPIPE; s->nwritten += len; return (ssize_t)len; }
	}
	if (len == 0) return 0;
	if (s->peer->rdshut && s->domain == AF_UNIX) return epipe(EPIPE);
	size_t sp = s->space();
	if (s->txblock || sp == 0) {
		if (nb) ERR(EAGAIN);
		block_until([s] { return s->space() > 0 || !s->peer; }, UINT64_MAX, "send on a full socket");
		sp = s->space();
	}
	size_t n = std::min(len, sp);
	ssize_t r = xfer(n, nb, F_WRITE, true, what);
	if (r < 0) { if (errno == EAGAIN) s->txblock = true; if (errno == EPIPE) { s->fin = s->wrshut = true; } return -1; }
	if ((size_t)r < n) s->txblock = true;
	n = (size_t)r;
	stream_put(s, data.data(), n, fds);
	note("      fd %d: %zu of %zu bytes written%s", fd, n, len, fds.empty() ? "" : " with descriptors");
	return (ssize_t)n;
}

static ssize_t do_recv(int fd, const struct iovec *v, int vc, int flags, struct sockaddr *from, socklen_t *fromlen, struct msghdr *mh, const char *what)
{
	SYS(what);
	File *f = file_of(fd); if (!f) ERR(EBADF);
	bool nb = (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT);
	size_t len = iovlen(v, vc);
	if (mh) { mh->msg_flags = 0; }
	if (f->type == File::PIPE) {
		Pipe *p = (Pipe *)f; if (p->wr) ERR(EBADF);
		if (p->buf->empty()) {
			if (!*p->wopen) return 0;
			if (nb) ERR(EAGAIN);
			block_until([p] { return !p->buf->empty() || !*p->wopen; }, UINT64_MAX, "read of an empty pipe");
			if (p->buf->empty()) return 0;
		}
		if (cfg.eintr && dev(2, "read interrupted")) ERR(EINTR);
		size_t n = std::min(len, p->buf->size());
		scatter(v, vc, p->buf->data(), n); p->buf->erase(0, n); hb_acquire(p->buf);
		return (ssize_t)n;
	}
	if (f->type == File::EVENTFD) {
		EventFd *e = (EventFd *)f; if (len < 8) ERR(EINVAL);
		if (e->v == 0) { if (nb) ERR(EAGAIN); block_until([e] { return e->v != 0; }, UINT64_MAX, "read of an eventfd"); }
		if (cfg.eintr && dev(2, "read interrupted")) ERR(EINTR);
		uint64_t x = e->sem ? 1 : e->v; e->v -= x; scatter(v, vc, (char *)&x, 8); hb_acquire(e);
		return 8;
	}
	if (f->type == File::TIMERFD) {
		TimerFd *t = (TimerFd *)f; if (len < 8) ERR(EINVAL);
		t->upd();
		if (!t->exp) { if (nb) ERR(EAGAIN); if (!t->next) block_until([] { return false; }, UINT64_MAX, "read of a disarmed timerfd"); block_until([] { return false; }, t->next, "read of a timerfd"); t->upd(); }
		if (cfg.eintr && dev(2, "read interrupted")) ERR(EINTR);
		uint64_t x = t->exp; t->exp = 0; scatter(v, vc, (char *)&x, 8);
		return 8;
	}
	if (f->type != File::SOCK) ERR(EINVAL);
	Sock *s = (Sock *)f;
	s->nreadcalls++;
	if (s->stype == SOCK_DGRAM) {
		if (s->so_error) { int e = s->so_error; s->so_error = 0; ERR(e); }
		if (s->rx.empty()) { if (nb) ERR(EAGAIN); block_until([s] { return !s->rx.empty(); }, UINT64_MAX, "recv"); }
		ssize_t r = xfer(1, nb, F_READ, false, what);
		if (r < 0) return -1;
		Skb k = s->rx.front();
		if (!(flags & MSG_PEEK)) { s->rx.pop_front(); s->rxbytes -= k.data.size(); }
		size_t n = std::min(len, k.data.size());
		scatter(v, vc, k.data.data(), n);
		if (from && fromlen) copyaddr(k.from, from, fromlen);
		if (mh) {
			if (n < k.data.size()) mh->msg_flags |= MSG_TRUNC;
			if (mh->msg_name) { memcpy(mh->msg_name, k.from.data(), std::min<size_t>(mh->msg_namelen, k.from.size())); mh->msg_namelen = (socklen_t)k.from.size(); }
			size_t room = mh->msg_control ? mh->msg_controllen : 0; mh->msg_controllen = 0;
			int on = 0; auto it = s->opts.find({IPPROTO_IP, IP_PKTINFO}); if (it != s->opts.end()) memcpy(&on, it->second.data(), std::min<size_t>(4, it->second.size()));
			/* as the kernel does: what does not fit is cut */
			auto put = [&](int level, int type, const void *data, size_t n) {
				if (room < sizeof(cmsghdr)) { mh->msg_flags |= MSG_CTRUNC; return; }
				size_t cl = CMSG_LEN(n); if (cl > room) { cl = room; mh->msg_flags |= MSG_CTRUNC; }
				cmsghdr *c = (cmsghdr *)mh->msg_control; c->cmsg_level = level; c->cmsg_type = type; c->cmsg_len = cl; memcpy(CMSG_DATA(c), data, cl - sizeof(cmsghdr));
				mh->msg_controllen = std::min(room, CMSG_SPACE(n));
			};
			if (s->domain == AF_INET && on) { in_pktinfo pi; memset(&pi, 0, sizeof(pi)); pi.ipi_addr = ((sockaddr_in *)k.dst.data())->sin_addr; pi.ipi_spec_dst = pi.ipi_addr; put(IPPROTO_IP, IP_PKTINFO, &pi, sizeof(pi)); }
			on = 0; it = s->opts.find({IPPROTO_IPV6, IPV6_RECVPKTINFO}); if (it != s->opts.end()) memcpy(&on, it->second.data(), std::min<size_t>(4, it->second.size()));
			if (s->domain == AF_INET6 && on) { in6_pktinfo pi; memset(&pi, 0, sizeof(pi)); pi.ipi6_addr = ((sockaddr_in6 *)k.dst.data())->sin6_addr; put(IPPROTO_IPV6, IPV6_PKTINFO, &pi, sizeof(pi)); }
		}
		note("      fd %d: datagram of %zu bytes received", fd, k.data.size());
		return (ssize_t)((flags & MSG_TRUNC) ? k.data.size() : n);
	}
	if (s->st != Sock::CONNECTED) { if (s->st == Sock::FAILED && s->so_error) { int e = s->so_error; s->so_error = 0; ERR(e); } if (s->st == Sock::FAILED) return 0; ERR(s->st == Sock::LISTEN || s->domain == AF_UNIX ? EINVAL : ENOTCONN); }
	if (mh && mh->msg_name) mh->msg_namelen = s->domain == AF_UNIX && s->remote.size() > 2 ? (socklen_t)(memcpy(mh->msg_name, s->remote.data(), std::min<size_t>(mh->msg_namelen, s->remote.size())), s->remote.size()) : 0;
	size_t room = mh && mh->msg_control ? mh->msg_controllen : 0;
	if (mh) mh->msg_controllen = 0;
	if (s->rx.empty()) {
		if (s->domain != AF_UNIX && s->done) { if (mh) mh->msg_namelen = 0; return 0; }
		if (s->so_error) { int e = s->so_error; s->so_error = 0; ERR(e); }
		if (s->fin || s->rst || s->rdshut || len == 0) { if (mh) mh->msg_namelen = 0; note("      fd %d: end of stream read", fd); return 0; }
		if (nb) ERR(EAGAIN);
		block_until([s] { return !s->rx.empty() || s->fin; }, UINT64_MAX, "recv");
		if (s->rx.empty()) return 0;
	}
	if (len == 0) return 0;
	if (flags & MSG_PEEK) fail("MSG_PEEK not modelled");
	size_t avail = std::min(len, s->rxbytes);
	/* what the kernel would give by default, for the cut choices */
	if (s->domain == AF_UNIX) { size_t a = 0; for (auto &k : s->rx) { a += k.data.size() - k.off; if (!k.fds.empty()) break; } avail = std::min(avail, a); }
	ssize_t r = xfer(avail, nb, F_READ, true, what);
	if (r < 0) return -1;
	std::vector<char> tmp(r);
	std::vector<File *> fds;
	size_t n = stream_get(s, tmp.data(), (size_t)r, &fds);
	scatter(v, vc, tmp.data(), n);
	if (!fds.empty()) {
		size_t maxfd = room >= CMSG_LEN(0) ? (room - CMSG_LEN(0)) / sizeof(int) : 0;
		size_t k = std::min(maxfd, fds.size());
		if (k) {
			cmsghdr *c = (cmsghdr *)mh->msg_control; c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(k * sizeof(int));
			for (size_t i = 0; i < k; i++) { int x = install(fds[i], true, flags & MSG_CMSG_CLOEXEC); memcpy(CMSG_DATA(c) + i * sizeof(int), &x, sizeof(int)); }
			mh->msg_controllen = std::min<size_t>(room, CMSG_SPACE(k * sizeof(int))); kwrite(mh->msg_control, mh->msg_controllen);
		}
		if (mh && k < fds.size()) mh->msg_flags |= MSG_CTRUNC;
		for (File *x : fds) env_unref(x);
	}
	note("      fd %d: %zu bytes read%s", fd, n, fds.empty() ? "" : " with descriptors");
	return (ssize_t)n;
}

ssize_t sim_read(int fd, void *p, size_t n) { iovec v = {p, n}; return do_recv(fd, &v, 1, 0, NULL, NULL, NULL, "read"); }
ssize_t sim___read_chk(int fd, void *p, size_t n, size_t) { return sim_read(fd, p, n); }
ssize_t sim_write(int fd, const void *p, size_t n) { iovec v = {(void *)p, n}; return do_send(fd, &v, 1, 0, NULL, 0, NULL, "write"); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { return do_recv(fd, v, c, 0, NULL, NULL, NULL, "readv"); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { return do_send(fd, v, c, 0, NULL, 0, NULL, "writev"); }
ssize_t sim_send(int fd, const void *p, size_t n, int fl) { iovec v = {(void *)p, n}; return do_send(fd, &v, 1, fl, NULL, 0, NULL, "send"); }
ssize_t sim_sendto(int fd, const void *p, size_t n, int fl, const struct sockaddr *sa, socklen_t l) { iovec v = {(void *)p, n}; return do_send(fd, &v, 1, fl, sa, l, NULL, "sendto"); }
ssize_t sim_recv(int fd, void *p, size_t n, int fl) { iovec v = {p, n}; return do_recv(fd, &v, 1, fl, NULL, NULL, NULL, "recv"); }
ssize_t sim_recvfrom(int fd, void *p, size_t n, int fl, struct sockaddr *sa, socklen_t *l) { iovec v = {p, n}; return do_recv(fd, &v, 1, fl, sa, l, NULL, "recvfrom"); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { return do_send(fd, m->msg_iov, (int)m->msg_iovlen, fl, (const sockaddr *)m->msg_name, m->msg_namelen, m, "sendmsg"); }
ssize_t sim_recvmsg(int fd, struct msghdr *m, int fl) { return do_recv(fd, m->msg_iov, (int)m->msg_iovlen, fl, NULL, NULL, m, "recvmsg"); }
int sim_eventfd_write(int fd, eventfd_t v) { return sim_write(fd, &v, 8) == 8 ? 0 : -1; }
int sim_eventfd_read(int fd, eventfd_t *v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; }

/* ---- waiting ---- */
static uint64_t deadline_ms(int ms) { return ms < 0 ? UINT64_MAX : g_now + (uint64_t)ms * 1000000ull; }
static void unblock_tx() { for (Sock *s : g_socks) s->txblock = false; }

/* waits until ready() gives a non-zero count; returns it, 0 on timeout, -1 on EINTR */
static int wait_common(std::function<int()> ready, uint64_t dl, const char *what)
{
	SYS(what);
	unblock_tx();
	if (cfg.eintr && dev(2, "wait interrupted")) ERR(EINTR);
	if (flt(F_WAIT, {ENOMEM}, what)) return -1;
	int n;
	bool sig = false;
	int sd0 = g_sigs_delivered;
	(void)sd0;
	fire_timers();
	if (!g_sigpend.empty()) { deliver_signals(); ERR(EINTR); }
	if ((n = ready())) return n;
	for (;;) {
		if (dl <= g_now) return 0;
		block_until([&] { return (sig = !g_sigpend.empty()) || ready() != 0; }, dl, what);
		if (!g_sigpend.empty()) { deliver_signals(); ERR(EINTR); }
		if ((n = ready())) return n;
	}
}

int sim_epoll_create1(int flags)
{
	SYS("epoll_create");
	if (flt(F_EPOLL_CREATE, {EMFILE}, "epoll_create")) return -1;
	Epoll *e = newfile<Epoll>(File::EPOLL); g_epolls.push_back(e);
	return install(e, true, flags & EPOLL_CLOEXEC);
}
int sim_epoll_create(int n) { if (n <= 0) ERR(EINVAL); return sim_epoll_create1(0); }
int sim_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev)
{
	SYS("epoll_ctl");
	File *f = file_of(efd), *t = file_of(fd);
	if (!f || !t) ERR(EBADF);
	if (f->type != File::EPOLL || f == t) ERR(EINVAL);
	Epoll *e = (Epoll *)f;
	size_t i; for (i = 0; i < e->ents.size(); i++) if (e->ents[i].fd == fd && e->ents[i].f == t) break;
	bool has = i < e->ents.size();
	switch (op) {
	case EPOLL_CTL_ADD: if (has) ERR(EEXIST); if (flt(F_EPOLL_CTL, {ENOSPC}, "epoll_ctl(ADD)")) return -1; e->ents.push_back({fd, t, ev->events, ev->data, false}); return 0;
	case EPOLL_CTL_MOD: if (!has) ERR(ENOENT); if (flt(F_EPOLL_MOD, {ENOMEM}, "epoll_ctl(MOD)")) return -1; e->ents[i].ev = ev->events; e->ents[i].d = ev->data; e->ents[i].oneshot_off = false; return 0;
	case EPOLL_CTL_DEL: if (!has) ERR(ENOENT); e->ents.erase(e->ents.begin() + i); return 0;
	}
	ERR(EINVAL);
}
static int do_epoll_wait(int efd, struct epoll_event *evs, int max, uint64_t dl)
{
	File *f = file_of(efd); if (!f) ERR(EBADF); if (f->type != File::EPOLL || max <= 0) ERR(EINVAL);
	Epoll *e = (Epoll *)f;
	auto m = [](Epoll::Ent &x) -> uint32_t { return x.oneshot_off ? 0 : x.f->mask() & ((x.ev | EPOLLERR | EPOLLHUP) & ~(EPOLLET | EPOLLONESHOT)); };
	int n = wait_common([&] { int k = 0; for (auto &x : e->ents) if (m(x)) k++; return k; }, dl, "epoll_wait");
	if (n <= 0) return n;
	std::vector<size_t> rdy;
	for (size_t i = 0; i < e->ents.size(); i++) if (m(e->ents[i])) rdy.push_back(i);
	size_t start = 0; bool one = false;
	if (cfg.order && rdy.size() > 1) {
		int c = dev((int)std::min<size_t>(rdy.size(), 6) + 1, "readiness order");
		if (c == 1) one = true; else if (c > 1) start = c - 1;
	}
	int out = 0;
	std::vector<Epoll::Ent> moved; std::vector<size_t> used;
	for (size_t k = 0; k < rdy.size() && out < max; k++) {
		size_t i = rdy[(start + k) % rdy.size()];
		Epoll::Ent &x = e->ents[i];
		evs[out].events = m(x); evs[out].data = x.d; out++;
		if (x.ev & EPOLLONESHOT) x.oneshot_off = true;
		used.push_back(i);
		if (one) break;
	}
	/* level triggered: reported entries go to the end of the ready list */
	if (out < (int)rdy.size()) {
		for (size_t i : used) moved.push_back(e->ents[i]);
		std::sort(used.begin(), used.end());
		for (size_t k = used.size(); k-- > 0;) e->ents.erase(e->ents.begin() + used[k]);
		for (auto &x : moved) e->ents.push_back(x);
	}
	kwrite(evs, out * sizeof(*evs));
	hb_acquire(e);
	return out;
}
int sim_epoll_wait(int efd, struct epoll_event *evs, int max, int ms) { return do_epoll_wait(efd, evs, max, deadline_ms(ms)); }
int sim_epoll_pwait(int efd, struct epoll_event *evs, int max, int ms, const sigset_t *) { return do_epoll_wait(efd, evs, max, deadline_ms(ms)); }
int sim_epoll_pwait2(int efd, struct epoll_event *evs, int max, const struct timespec *t, const sigset_t *) { return do_epoll_wait(efd, evs, max, t ? g_now + tsns(*t) : UINT64_MAX); }

static uint32_t pollmask(struct pollfd &p)
{
	if (p.fd < 0) return 0;
	File *f = file_of(p.fd);
	if (!f) return POLLNVAL;
	return f->mask() & ((uint32_t)(uint16_t)p.events | POLLERR | POLLHUP);
}
static int do_poll(struct pollfd *fds, nfds_t nfds, uint64_t dl)
{
	int n = wait_common([&] { int k = 0; for (nfds_t i = 0; i < nfds; i++) if (pollmask(fds[i])) k++; return k; }, dl, "poll");
	if (n < 0) return n;
	n = 0;
	for (nfds_t i = 0; i < nfds; i++) { fds[i].revents = (short)pollmask(fds[i]); kwrite(&fds[i].revents, sizeof(short)); if (fds[i].revents) n++; }
	return n;
}
int sim_poll(struct pollfd *fds, nfds_t n, int ms) { return do_poll(fds, n, deadline_ms(ms)); }
int sim___poll_chk(struct pollfd *fds, nfds_t n, int ms, size_t) { return do_poll(fds, n, deadline_ms(ms)); }
int sim_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *t, const sigset_t *) { return do_poll(fds, n, t ? g_now + tsns(*t) : UINT64_MAX); }

/* ---- threads ---- */
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { g_mattr[a] = 0; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { g_mattr.erase(a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { g_mattr[a] = t; return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	g_mx[m] = Mutex(); if (a && g_mattr.count(a)) g_mx[m].type = g_mattr[a]; return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m)
{
	auto it = g_mx.find(m);
	if (it == g_mx.end()) return 0;   /* zero filled memory is a valid mutex here */
	if (it->second.owner >= 0) fail("pthread_mutex_destroy of a locked mutex");
	g_mx.erase(it);
	return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
	SYS("mutex lock");
	Mutex &x = g_mx[m];
	if (x.owner == g_cur) {
		if (x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
		if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		fail("deadlock: a thread locks a mutex that it already holds");
	}
	if (x.owner >= 0) block_until([m] { return g_mx[m].owner < 0; }, UINT64_MAX, "mutex lock");
	Mutex &y = g_mx[m];
	y.owner = g_cur; y.count = 1;
	hb_acquire(m);
	return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m)
{
	SYS("mutex trylock");
	Mutex &x = g_mx[m];
	if (x.owner == g_cur && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
	if (x.owner >= 0) return EBUSY;
	x.owner = g_cur; x.count = 1; hb_acquire(m); return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
	Mutex &x = g_mx[m];
	if (x.owner != g_cur) fail("pthread_mutex_unlock of a mutex the thread does not hold");
	if (--x.count > 0) return 0;
	hb_release(m);
	x.owner = -1;
	SYS("mutex unlock");
	return 0;
}
int sim_pthread_condattr_init(pthread_condattr_t *a) { g_cattr[a] = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { g_cattr.erase(a); return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { g_cattr[a] = c; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	g_cv[c] = Cond(); if (a && g_cattr.count(a)) g_cv[c].clock = g_cattr[a]; return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c)
{
	auto it = g_cv.find(c);
	if (it == g_cv.end()) return 0;
	if (it->second.waiters) fail("pthread_cond_destroy with waiting threads");
	g_cv.erase(it); return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl)
{
	Mutex &x = g_mx[m];
	if (x.owner != g_cur) fail("pthread_cond_wait without holding the mutex");
	uint64_t woken = 0;
	g_cv[c].waiters++; g_cv[c].q.push_back(&woken);
	hb_release(m);
	x.owner = -1;
	if (cfg.spurious && dev(2, "spurious wakeup")) { woken = 2; }
	SYS("cond wait");
	block_until([&] { return woken != 0; }, dl, "cond wait");
	Cond &k = g_cv[c];
	bool to = woken == 0;
	if (woken != 1) { auto it = std::find(k.q.begin(), k.q.end(), &woken); if (it != k.q.end()) k.q.erase(it); }
	k.waiters--;
	if (g_mx[m].owner >= 0) block_until([m] { return g_mx[m].owner < 0; }, UINT64_MAX, "mutex relock");
	g_mx[m].owner = g_cur; g_mx[m].count = 1;
	hb_acquire(m);
	return to ? ETIMEDOUT : 0;
}
static int cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
	uint64_t d = tsns(*t);
	if (k == CLOCK_REALTIME) d = d > wall ? d - wall : 0;
	/* when it has expired already the mutex is released and taken again */
	return cond_wait(c, m, std::max(d, g_now));
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { SYS("cond wait"); return cond_wait(c, m, UINT64_MAX); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	SYS("cond timedwait");
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
	return cond_timedwait(c, m, g_cv[c].clock, t);
}
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t)
{
	SYS("cond timedwait");
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
	return cond_timedwait(c, m, k, t);
}
int sim_pthread_cond_signal(pthread_cond_t *c)
{
	SYS("cond signal");
	Cond &k = g_cv[c];
	if (!k.q.empty()) {
		int i = k.q.size() > 1 ? pick((int)k.q.size(), "thread to signal") : 0;
		*k.q[i] = 1; k.q.erase(k.q.begin() + i);
	}
	return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c)
{
	SYS("cond broadcast");
	Cond &k = g_cv[c];
	for (auto *w : k.q) *w = 1;
	k.q.clear();
	return 0;
}
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	if (cfg.faults & F_PTHREAD) { if (flt(F_PTHREAD, {EAGAIN}, "pthread_create")) return EAGAIN; }
	int i = newfiber("library thread");
	g_fib[i].start = fn; g_fib[i].arg = arg; g_fib[i].lib = true;
	*t = (pthread_t)(i + 1000);
	SYS("pthread_create");
	return 0;
}
int sim_pthread_join(pthread_t t, void **ret)
{
	SYS("pthread_join");
	int i = (int)t - 1000;
	if (i < 1 || i >= g_nfib || g_fib[i].joined) fail("pthread_join of a thread that does not exist");
	if (i == g_cur) return EDEADLK;
	join(i);
	if (ret) *ret = g_fib[i].ret;
	return 0;
}
pthread_t sim_pthread_self(void) { return (pthread_t)(g_cur + 1000); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_sched_yield(void) { SYS("sched_yield"); return 0; }

/* ---- names ---- */
int sim_getaddrinfo(const char *node, const char *service, const struct addrinfo *h, struct addrinfo **res)
{
	struct addrinfo hh; memset(&hh, 0, sizeof(hh)); if (h) hh = *h;
	const char *n = node;
	if (n && !strcmp(n, "localhost")) n = hh.ai_family == AF_INET6 ? "::1" : "127.0.0.1";
	hh.ai_flags |= AI_NUMERICHOST;
	return getaddrinfo(n, service, &hh, res);
}
} /* extern "C" */

namespace simk {
void lib_free(void *p) { sim_free(p); }
}

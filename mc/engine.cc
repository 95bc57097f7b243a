#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <setjmp.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <atomic>
#include <map>
#include <algorithm>

namespace mc {

static const int MAXW = 16;
static const int MAXLVL = 8;
static const size_t ARENA = 3ull << 30;          /* per level, NORESERVE */
static const size_t ARENA_SOFT = 1ull << 30;     /* stop sharing above */
static const size_t HIST = 32ull << 20;          /* per worker */
static const size_t BITMAP_BITS = 1ull << 30;    /* 128 MB NORESERVE */
static const size_t OUT_BITS = 1ull << 26;
static const int MAXPATH = 60000;
static const int MAXSCEN = 512;

struct Item { uint16_t scen; uint8_t cost; uint8_t pad; uint32_t len; uint32_t nhash; };

struct ScenStat {
	std::atomic<uint64_t> execs, choices, maxdepth, outcomes, pruned;
	std::atomic<uint64_t> by_cost[MAXLVL];
};

struct WSlot {
	std::atomic<uint64_t> beat;
	std::atomic<int> busy;
	int scen;
	uint8_t cost;
	uint32_t plen;                 /* length of path executed so far */
	uint32_t nhash;
	uint8_t path[MAXPATH];
	char msg[4096];
	int verdict;                   /* 0 none 1 fail 2 diverged */
	size_t histlen;
	int histfull;
};

struct Level {
	std::atomic<int> lock;
	size_t head, tail;
	uint64_t nitems;
	uint64_t total;
};

struct Shared {
	std::atomic<int> level;
	std::atomic<int> active;
	std::atomic<int> stop;
	std::atomic<uint64_t> evals, traces, states, arena_full;
	Level lv[MAXLVL];
	ScenStat st[MAXSCEN];
	WSlot w[MAXW];
	struct { std::atomic<int> used; char name[60]; std::atomic<uint64_t> n; } stats[128];
	std::atomic<int> statlock;
};

struct Scen { std::string prop; Scenario s; };
static std::vector<Scen> &all() { static std::vector<Scen> v; return v; }
static std::vector<Scenario *> g_scen;

static Shared *S;
static uint8_t *g_arena[MAXLVL];
static uint8_t *g_hist[MAXW];
static std::atomic<uint8_t> *g_bits, *g_obits;
static bool g_thorough = false;
static int g_nw = 8;
static void (*g_begin)(), (*g_end)();
static volatile int g_me = -1;

/* current execution */
static struct Exec {
	Scenario *sc; int scen; int bound;
	const uint8_t *prefix; uint32_t plen; uint32_t pnhash;
	uint32_t pos; int cost; int basecost; uint32_t nhash;
	uint64_t shash;
	bool trace;
	std::string *log;
	jmp_buf jb;
} X;
static std::vector<uint8_t> xn, xk;     /* arity and kind at each point */
static uint8_t *xpath;                  /* choices of this execution */

bool thorough() { return g_thorough; }
bool tracing() { return X.trace; }

uint64_t hash64(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) {
		uint64_t v; memcpy(&v, b, 8);
		h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
		b += 8; n -= 8;
	}
	while (n--) { h ^= *b++; h *= 0x100000001b3ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}

static bool setbit(std::atomic<uint8_t> *m, size_t bits, uint64_t h)
{
	size_t i = h & (bits - 1);
	uint8_t k = 1u << (i & 7);
	if (m[i >> 3].load(std::memory_order_relaxed) & k)
		return false;
	return !(m[i >> 3].fetch_or(k, std::memory_order_relaxed) & k);
}

void observe(uint64_t v)
{
	X.shash ^= v + 0x9e3779b97f4a7c15ull + (X.shash << 6) + (X.shash >> 2);
	X.shash *= 0xff51afd7ed558ccdull; X.shash ^= X.shash >> 33;
}
void observe_bytes(const void *p, size_t n) { observe(hash64(p, n)); }
void heartbeat() { if (g_me >= 0) S->w[g_me].beat++; }
void count(uint64_t n) { S->evals += n; heartbeat(); }
void count_trace(uint64_t n) { S->traces += n; }
void outcome(uint64_t h)
{
	if (setbit(g_obits, OUT_BITS, hash64(&h, 8, 77 + X.scen)))
		S->st[X.scen].outcomes++;
}
void stat(const char *name, uint64_t n)
{
	for (int i = 0; i < 128; i++) {
		if (!S->stats[i].used.load()) {
			while (S->statlock.exchange(1)) sched_yield();
			if (!S->stats[i].used.load()) {
				snprintf(S->stats[i].name, sizeof(S->stats[i].name), "%s", name);
				S->stats[i].used = 1;
			}
			S->statlock = 0;
		}
		if (!strcmp(S->stats[i].name, name)) { S->stats[i].n += n; return; }
	}
}

void note(const char *fmt, ...)
{
	if (!X.trace) return;
	char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
	if (X.log->size() < (1 << 20)) { *X.log += b; *X.log += '\n'; }
}

int budget() { return X.bound - X.cost; }

static void die(int verdict, const char *msg)
{
	WSlot *w = &S->w[g_me];
	w->verdict = verdict;
	snprintf(w->msg, sizeof(w->msg), "%s", msg);
	if (X.trace) {
		note("VIOLATION: %s", msg);
		fputs(X.log->c_str(), stdout);
		fflush(stdout);
	}
	_exit(verdict == 1 ? 77 : 78);
}

void fail(const char *fmt, ...)
{
	char b[4000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
	die(1, b);
	abort();
}

void prune() { longjmp(X.jb, 2); }

int choose(int n, Kind kind, const char *what)
{
	if (n <= 1) return 0;
	if (n > 250) fail("engine: choice of %d alternatives at %s", n, what);
	if (kind == DEV && X.cost >= X.bound)
		return 0;
	uint32_t i = X.pos;
	if (i >= MAXPATH - 1) die(1, "horizon: execution does not end (choice points)");
	int c = 0;
	X.nhash = (X.nhash ^ (uint32_t)(n * 2 + kind)) * 16777619u;
	if (i < X.plen) {
		c = X.prefix[i];
		if (c >= n) die(2, "diverged: choice out of range while replaying a prefix");
		if (i + 1 == X.plen && X.pnhash && X.pnhash != X.nhash)
			die(2, "diverged: choice points differ while replaying a prefix");
	}
	xpath[i] = (uint8_t)c;
	if (xn.size() <= i) { xn.resize(i + 64); xk.resize(i + 64); }
	xn[i] = (uint8_t)n;
	xk[i] = (uint8_t)kind;
	X.pos = i + 1;
	S->w[g_me].plen = X.pos;
	S->w[g_me].nhash = X.nhash;
	if (kind == DEV && c > 0) X.cost++;
	observe(((uint64_t)n << 32) ^ (uint64_t)c ^ ((uint64_t)kind << 60));
	if (i >= X.plen || i + 1 == X.plen)
		if (setbit(g_bits, BITMAP_BITS, X.shash ^ (uint64_t)X.scen * 0x51ull * 0x9e3779b97f4a7c15ull))
			S->states++;
	if (X.trace && (c > 0 || kind == FREE)) note("    [choice %u] %s: %d of %d%s", i, what, c, n, kind == DEV && c ? " (deviation)" : "");
	return c;
}

int pick_big(int n, const char *what)
{
	if (n <= 200) return pick(n, what);
	int hi = (n + 199) / 200;
	if (hi > 200) { int b = pick_big(hi, what); int r = n - b * 200; return b * 200 + pick(r > 200 ? 200 : r, what); }
	int h = pick(hi, what);
	int rem = n - h * 200;
	return h * 200 + pick(rem > 200 ? 200 : rem, what);
}

void add(const char *prop, const char *name, std::function<void()> fn, int bq, int bt, bool to)
{
	if (bt < bq) bt = bq;
	all().push_back(Scen{prop, Scenario{strdup(name), fn, bq, bt, to}});
}
void set_hooks(void (*b)(), void (*e)()) { g_begin = b; g_end = e; }

/* runs one execution; leaves its path in xpath[0..X.pos) */
static void run_one(int scen, const uint8_t *prefix, uint32_t plen, uint32_t nhash, int bound, bool trace, std::string *log)
{
	WSlot *w = &S->w[g_me];
	X.sc = g_scen[scen]; X.scen = scen; X.bound = bound;
	X.prefix = prefix; X.plen = plen; X.pnhash = nhash;
	X.pos = 0; X.cost = 0; X.nhash = 2166136261u; X.shash = 1;
	X.trace = trace; X.log = log;
	w->scen = scen; w->plen = 0; w->verdict = 0; w->beat++;
	if (g_begin) g_begin();
	int r = setjmp(X.jb);
	if (r == 0) {
		X.sc->run();
		if (g_end) g_end();
	} else {
		S->st[scen].pruned++;
	}
	if (X.pos < plen) die(2, "diverged: execution ended inside the prefix");
	w->beat++;
	ScenStat &st = S->st[scen];
	st.execs++;
	st.choices += X.pos - (plen ? plen - 1 : 0);
	st.by_cost[X.cost < MAXLVL ? X.cost : MAXLVL - 1]++;
	uint64_t md = st.maxdepth.load();
	while (md < X.pos && !st.maxdepth.compare_exchange_weak(md, X.pos)) {}
}

static void lk(std::atomic<int> &l) { while (l.exchange(1, std::memory_order_acquire)) sched_yield(); }
static void ulk(std::atomic<int> &l) { l.store(0, std::memory_order_release); }

static bool push(int level, const Item &it, const uint8_t *path)
{
	Level &L = S->lv[level];
	size_t sz = (sizeof(Item) + it.len + 7) & ~7ull;
	lk(L.lock);
	if (L.tail + sz > ARENA || L.tail - L.head > ARENA_SOFT) { ulk(L.lock); return false; }
	memcpy(g_arena[level] + L.tail, &it, sizeof(it));
	memcpy(g_arena[level] + L.tail + sizeof(it), path, it.len);
	L.tail += sz; L.nitems++; L.total++;
	ulk(L.lock);
	return true;
}

static bool pop(int level, Item *it, std::vector<uint8_t> *path)
{
	Level &L = S->lv[level];
	lk(L.lock);
	if (L.head == L.tail) { L.head = L.tail = 0; ulk(L.lock); return false; }
	memcpy(it, g_arena[level] + L.head, sizeof(*it));
	path->assign(g_arena[level] + L.head + sizeof(*it), g_arena[level] + L.head + sizeof(*it) + it->len);
	L.head += (sizeof(Item) + it->len + 7) & ~7ull;
	L.nitems--;
	if (L.head == L.tail) L.head = L.tail = 0;
	S->active++;
	ulk(L.lock);
	return true;
}

struct LItem { Item it; std::vector<uint8_t> path; };

static void worker(int me)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	g_me = me;
	WSlot *w = &S->w[me];
	xpath = w->path;
	w->histlen = 0; w->histfull = 0; w->verdict = 0;
	uint64_t nrun = 0;
	std::vector<LItem> st;
	for (;;) {
		if (S->stop) _exit(0);
		int lvl = S->level;
		if (lvl >= MAXLVL) _exit(0);
		LItem cur;
		if (!pop(lvl, &cur.it, &cur.path)) {
			/* advance the level when nobody works on this one */
			Level &L = S->lv[lvl];
			lk(L.lock);
			bool done = S->active == 0 && L.nitems == 0;
			ulk(L.lock);
			if (done) {
				int nl = lvl + 1;
				S->level.compare_exchange_strong(lvl, nl);
				continue;
			}
			usleep(200);
			w->beat++;
			continue;
		}
		w->busy = 1;
		st.clear();
		st.push_back(cur);
		while (!st.empty()) {
			if (S->stop) _exit(0);
			LItem c = std::move(st.back());
			st.pop_back();
			Scenario *sc = g_scen[c.it.scen];
			int bound = g_thorough ? sc->bound_thorough : sc->bound_quick;
			/* history, so that a failure that needs earlier executions of
			 * this process can be replayed */
			size_t hs = sizeof(Item) + c.it.len;
			if (w->histlen + hs < HIST) {
				memcpy(g_hist[me] + w->histlen, &c.it, sizeof(Item));
				memcpy(g_hist[me] + w->histlen + sizeof(Item), c.path.data(), c.it.len);
				w->histlen += hs;
			} else w->histfull = 1;
			w->cost = c.it.cost;
			run_one(c.it.scen, c.path.data(), c.it.len, c.it.nhash, bound, false, NULL);
			nrun++;
			/* children: alternatives at the points beyond the prefix */
			uint32_t n = X.pos;
			uint32_t h = 2166136261u;
			int cost = 0;
			for (uint32_t i = 0; i < n; i++) {
				h = (h ^ (uint32_t)(xn[i] * 2 + xk[i])) * 16777619u;
				if (i >= c.it.len) {
					int ccost = cost + (xk[i] == DEV ? 1 : 0);
					if (ccost <= bound) {
						for (int a = 1; a < xn[i]; a++) {
							LItem k;
							k.it.scen = c.it.scen; k.it.cost = (uint8_t)ccost;
							k.it.len = i + 1; k.it.nhash = h; k.it.pad = 0;
							uint8_t save = xpath[i];
							xpath[i] = (uint8_t)a;
							bool shared = false;
							if (ccost > lvl)
								shared = push(ccost < MAXLVL ? ccost : MAXLVL - 1, k.it, xpath);
							else if (S->lv[lvl].nitems < (uint64_t)g_nw * 8)
								shared = push(lvl, k.it, xpath);
							if (!shared) {
								if (ccost > lvl) S->arena_full++;
								k.path.assign(xpath, xpath + i + 1);
								st.push_back(std::move(k));
							}
							xpath[i] = save;
						}
					}
				}
				if (xk[i] == DEV && xpath[i] > 0) cost++;
			}
		}
		w->busy = 0;
		S->active--;
		if (nrun > 3000) _exit(79);   /* fresh process */
	}
}

static double now()
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string g_dir;

/* runs fn in a fresh child; returns wait status, or -1 on timeout */
static int in_child(std::function<void()> fn, double tmo, const std::string &outf, const std::string &errf)
{
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int o = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		dup2(o, 1); dup2(e, 2);
		fn();
		_exit(0);
	}
	double t0 = now();
	int st;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) return st;
		if (now() - t0 > tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
		usleep(2000);
	}
}

static std::string slurp(const std::string &f, size_t max)
{
	std::string s; FILE *fp = fopen(f.c_str(), "r");
	if (!fp) return s;
	char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof(b), fp)) > 0 && s.size() < max) s.append(b, n);
	fclose(fp);
	return s;
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static void replay_child(int slot, int scen, const std::vector<uint8_t> &path, int bound, bool trace)
{
	g_me = slot;
	xpath = S->w[slot].path;
	std::string log;
	run_one(scen, path.data(), (uint32_t)path.size(), 0, bound, trace, &log);
	if (trace) { fputs(log.c_str(), stdout); fflush(stdout); }
}

static void replay_hist(int slot, const std::string &hist)
{
	g_me = slot;
	xpath = S->w[slot].path;
	size_t o = 0;
	while (o + sizeof(Item) <= hist.size()) {
		Item it; memcpy(&it, hist.data() + o, sizeof(it));
		Scenario *sc = g_scen[it.scen];
		int bound = g_thorough ? sc->bound_thorough : sc->bound_quick;
		run_one(it.scen, (const uint8_t *)hist.data() + o + sizeof(it), it.len, it.nhash, bound, false, NULL);
		o += sizeof(it) + it.len;
	}
}

static std::string hex(const std::vector<uint8_t> &v)
{
	std::string s; char b[4];
	for (uint8_t c : v) { snprintf(b, sizeof(b), "%02x", c); s += b; }
	return s;
}

static const char *asan_summary(const std::string &err, std::string &tmp)
{
	size_t p = err.find("ERROR: AddressSanitizer");
	if (p == std::string::npos) p = err.find("runtime error:");
	if (p == std::string::npos) return "";
	size_t e = err.find('\n', p);
	tmp = err.substr(p, e == std::string::npos ? std::string::npos : e - p);
	size_t q = err.find("SUMMARY:", p);
	if (q != std::string::npos) { e = err.find('\n', q); tmp += " | " + err.substr(q, e - q); }
	return tmp.c_str();
}

int engine_main(int argc, char **argv)
{
	std::string prop, evidence, only, replay;
	double cap = 840; int list = 0;
	const char *tier = getenv("VERIF_TIER");
	const char *seed = getenv("VERIF_SEED");
	if (tier && !strcmp(tier, "thorough")) g_thorough = true;
	g_nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
	if (g_nw > MAXW - 2) g_nw = MAXW - 2;
	if (g_nw < 1) g_nw = 1;
	int boundov = -1;
	bool showsample = false;
	std::string wdir = "/tmp";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx();
		else if (a == "--thorough") g_thorough = true;
		else if (a == "--quick") g_thorough = false;
		else if (a == "--evidence") evidence = nx();
		else if (a == "--only") only = nx();
		else if (a == "--cap") cap = atof(nx().c_str());
		else if (a == "--workers") g_nw = atoi(nx().c_str());
		else if (a == "--dir") wdir = nx();
		else if (a == "--bound") boundov = atoi(nx().c_str());
		else if (a == "--replay") replay = nx();
		else if (a == "--list") list = 1;
		else if (a == "--sample") showsample = true;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	std::vector<int> gi;
	for (auto &s : all()) {
		if (s.prop != prop) continue;
		if (s.s.thorough_only && !g_thorough && replay.empty()) continue;
		if (!only.empty() && only != s.s.name && !(only.back() == '*' && !strncmp(only.c_str(), s.s.name, only.size() - 1))) continue;
		if (boundov >= 0) s.s.bound_quick = s.s.bound_thorough = boundov;
		g_scen.push_back(&s.s);
		if (list) printf("%s %d %d%s\n", s.s.name, s.s.bound_quick, s.s.bound_thorough, s.s.thorough_only ? " thorough" : "");
	}
	if (list) return 0;
	if (g_scen.empty() || g_scen.size() > (size_t)MAXSCEN) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }

	auto shm = [](size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
	S = new (shm(sizeof(Shared))) Shared();
	for (int i = 0; i < MAXLVL; i++) g_arena[i] = (uint8_t *)shm(ARENA);
	for (int i = 0; i < MAXW; i++) g_hist[i] = (uint8_t *)shm(HIST);
	g_bits = (std::atomic<uint8_t> *)shm(BITMAP_BITS / 8);
	g_obits = (std::atomic<uint8_t> *)shm(OUT_BITS / 8);
	g_dir = wdir;
	double t0 = now();
	const int RS = MAXW - 1;      /* slot for replays */
	std::string outf = wdir + "/replay.out", errf = wdir + "/replay.err";

	if (!replay.empty()) {
		/* replay file: line "scenario NAME", "bound N", "path HEX" or "history HEX" */
		std::string t = slurp(replay, 200 << 20);
		auto field = [&](const char *k) { std::string key = std::string("\n") + k + " "; size_t p = t.find(key);
			if (p == std::string::npos) return std::string(); p += key.size(); return t.substr(p, t.find('\n', p) - p); };
		std::string sn = field("scenario"), ph = field("path"), b = field("bound"), hh = field("history");
		std::vector<uint8_t> path;
		for (size_t i = 0; i + 1 < ph.size(); i += 2) path.push_back((uint8_t)strtol(ph.substr(i, 2).c_str(), NULL, 16));
		int si = -1;
		for (size_t i = 0; i < g_scen.size(); i++) if (sn == g_scen[i]->name) si = (int)i;
		if (si < 0) { fprintf(stderr, "scenario %s not found\n", sn.c_str()); return 2; }
		int st = in_child([&] { replay_child(RS, si, path, atoi(b.c_str()), true); }, 120, outf, errf);
		fputs(slurp(outf, 1 << 22).c_str(), stdout);
		fputs(slurp(errf, 1 << 22).c_str(), stdout);
		printf("replay: %s\n", st == 0 ? "no violation" : st == -1 ? "hang" : "violation");
		return st == 0 ? 0 : 1;
	}

	/* samples: the default execution of the first scenarios, and determinism:
	 * it is run twice and the traces must be equal */
	std::vector<std::string> samples;
	int violated = 0; std::string vmsg, vtrace, verr; int vscen = -1; std::vector<uint8_t> vpath; std::string vhist;
	int vbound = 0;
	for (size_t i = 0; i < g_scen.size() && !violated; i++) {
		if (i >= 6 && g_scen.size() > 24 && (i % (g_scen.size() / 12 + 1)) != 0) continue;
		int b = g_thorough ? g_scen[i]->bound_thorough : g_scen[i]->bound_quick;
		std::string tr[2]; int st[2];
		for (int k = 0; k < 2; k++) {
			st[k] = in_child([&] { replay_child(RS, (int)i, {}, b, true); }, 120, outf, errf);
			tr[k] = slurp(outf, 1 << 20);
			if (st[k] != 0) break;
		}
		if (st[0] == 0 && (st[1] != 0 || tr[0] != tr[1])) {
			fprintf(stderr, "engine: scenario %s is not deterministic\n", g_scen[i]->name);
			violated = 2; vmsg = "two runs of the same schedule differ (the library behaves nondeterministically)"; vscen = (int)i; vbound = b;
			break;
		}
		if (st[0] == 0 && samples.size() < 4)
			samples.push_back(std::string("scenario ") + g_scen[i]->name + ", default schedule:\n" + tr[0].substr(0, 1500));
		if (showsample) printf("--- %s (status %d)\n%s", g_scen[i]->name, st[0], tr[0].c_str());
	}

	for (size_t i = 0; i < g_scen.size(); i++) {
		Item it = {(uint16_t)i, 0, 0, 0, 0};
		push(0, it, (const uint8_t *)"");
	}
	std::vector<pid_t> pid(g_nw, 0);
	std::vector<uint64_t> lastbeat(g_nw, 0);
	std::vector<double> beatt(g_nw, now());
	auto spawn = [&](int i) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			std::string f = wdir + "/w" + std::to_string(i) + ".err";
			int e = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
			dup2(e, 2); dup2(e, 1);
			worker(i);
			_exit(0);
		}
		pid[i] = p; beatt[i] = now();
	};
	bool capped = false; int unconfirmed = 0; std::string unconf_msg;
	if (!violated) for (int i = 0; i < g_nw; i++) spawn(i);
	int alive = violated ? 0 : g_nw;
	while (alive > 0) {
		int st; pid_t p;
		while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
			int i = -1;
			for (int k = 0; k < g_nw; k++) if (pid[k] == p) i = k;
			if (i < 0) continue;
			pid[i] = 0;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; continue; }
			if (WIFEXITED(st) && WEXITSTATUS(st) == 79) { spawn(i); continue; }
			/* failure: replay before report */
			WSlot *w = &S->w[i];
			std::vector<uint8_t> path(w->path, w->path + w->plen);
			int scen = w->scen; int verdict = w->verdict; std::string msg = w->msg;
			Scenario *sc = g_scen[scen];
			int bound = g_thorough ? sc->bound_thorough : sc->bound_quick;
			std::string err = slurp(wdir + "/w" + std::to_string(i) + ".err", 1 << 20);
			std::string hist((char *)g_hist[i], w->histlen);
			int hf = w->histfull;
			if (w->busy) { w->busy = 0; S->active--; }
			if (violated) { alive--; continue; }
			if (verdict == 0) {
				std::string tmp; asan_summary(err, tmp);
				if (tmp.empty()) tmp = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) tmp = "execution hangs";
				msg = tmp;
			}
			std::string m2 = verdict == 2 ? "" : msg;
			/* choices may be absent after the point of failure */
			int rs = in_child([&] { replay_child(RS, scen, path, bound, true); }, 60, outf, errf);
			if (rs != 0) {
				violated = 1; vscen = scen; vpath = path; vbound = bound;
				vtrace = slurp(outf, 1 << 20); verr = slurp(errf, 1 << 18);
				if (rs == -1) vmsg = "execution hangs";
				else if (S->w[RS].verdict == 1) vmsg = S->w[RS].msg;
				else if (S->w[RS].verdict == 2) vmsg = std::string("nondeterministic: ") + S->w[RS].msg;
				else { std::string tmp; asan_summary(verr, tmp); vmsg = tmp.empty() ? msg : tmp; }
			} else if (!hf) {
				rs = in_child([&] { replay_hist(RS, hist); }, 600, outf, errf);
				if (rs != 0 && rs != -1) {
					violated = 1; vscen = scen; vpath = path; vbound = bound; vhist = hist;
					std::string e2 = slurp(errf, 1 << 18); verr = e2;
					vmsg = msg + " (needs the earlier executions of the same process: state is carried over between independent uses)";
				}
			}
			if (violated) { S->stop = 1; alive--; continue; }
			unconfirmed++; unconf_msg = msg;
			fprintf(stderr, "engine: failure not confirmed by replay: %s (%s)\n", msg.c_str(), sc->name);
			if (unconfirmed > 20) { S->stop = 1; alive--; continue; }
			spawn(i);
		}
		for (int i = 0; i < g_nw; i++) {
			if (!pid[i]) continue;
			uint64_t b = S->w[i].beat;
			if (b != lastbeat[i]) { lastbeat[i] = b; beatt[i] = now(); }
			else if (now() - beatt[i] > 20) { kill(pid[i], SIGKILL); beatt[i] = now(); }
		}
		if (now() - t0 > cap && !S->stop) { capped = true; S->stop = 1; }
		if (S->stop && now() - t0 > cap + 10) for (int i = 0; i < g_nw; i++) if (pid[i]) kill(pid[i], SIGKILL);
		usleep(1000);
	}
	double wall = now() - t0;
	uint64_t execs = 0, choices = 0, outs = 0, maxd = 0, pruned = 0;
	std::string per;
	int bmax = 0;
	std::map<int, uint64_t> bc;
	for (size_t i = 0; i < g_scen.size(); i++) {
		ScenStat &s = S->st[i];
		execs += s.execs; choices += s.choices; outs += s.outcomes; maxd = std::max<uint64_t>(maxd, s.maxdepth); pruned += s.pruned;
		int b = g_thorough ? g_scen[i]->bound_thorough : g_scen[i]->bound_quick;
		bmax = std::max(bmax, b);
		for (int k = 0; k < MAXLVL; k++) if (s.by_cost[k]) bc[k] += s.by_cost[k];
		if (i < 60) { char bb[300]; snprintf(bb, sizeof(bb), "%s%s: bound %d, %llu executions, %llu choices, max depth %llu, %llu outcomes", i ? "; " : "", g_scen[i]->name, b,
			(unsigned long long)s.execs, (unsigned long long)s.choices, (unsigned long long)s.maxdepth, (unsigned long long)s.outcomes);
			per += bb; }
	}
	std::string bys;
	for (auto &k : bc) bys += (bys.empty() ? "" : ", ") + std::to_string(k.second) + " with " + std::to_string(k.first) + " deviations";
	if (!evidence.empty()) {
		FILE *f = fopen(evidence.c_str(), "w");
		if (!f) { perror(evidence.c_str()); return 2; }
		fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %s,\n \"level\": \"model_checking\",\n", jstr(prop).c_str(), g_thorough ? "thorough" : "quick", seed && *seed ? seed : "1");
		fprintf(f, " \"coverage\": {\n  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
			(unsigned long long)S->states, (unsigned long long)choices, (unsigned long long)execs);
		fprintf(f, "  \"executions\": %llu,\n  \"elementary_cases\": %llu,\n  \"distinct_outcomes\": %llu,\n  \"conformance_traces\": %llu,\n  \"max_depth\": %llu,\n  \"pruned\": %llu,\n  \"deviation_bound\": %d,\n",
			(unsigned long long)execs, (unsigned long long)S->evals, (unsigned long long)outs, (unsigned long long)S->traces, (unsigned long long)maxd, (unsigned long long)pruned, bmax);
		fprintf(f, "  \"executions_by_deviations\": %s,\n  \"capped\": %s,\n  \"level_when_capped\": %d,\n  \"unconfirmed_failures\": %d,\n  \"exhaustive\": %s,\n", jstr(bys).c_str(), capped ? "true" : "false", capped ? (int)S->level : -1, unconfirmed, (capped || violated || unconfirmed) ? "false" : "true");
		fprintf(f, "  \"scenarios\": %s,\n", jstr(per).c_str());
		std::string cs;
		for (int i = 0; i < 128; i++) if (S->stats[i].used) cs += (cs.empty() ? "" : ", ") + std::string("\"") + S->stats[i].name + "\": " + std::to_string(S->stats[i].n.load());
		fprintf(f, "  \"counters\": {%s},\n", cs.c_str());
		fprintf(f, "  \"explanation\": \"Stateless exploration of the real library code: every execution runs the implementation itself, so each is a trace of the implementation; states are distinct observation histories at decision points, transitions are decisions taken.\",\n");
		fprintf(f, "  \"samples\": [");
		for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
		if (samples.empty()) fprintf(f, "\"none\"");
		fprintf(f, "]\n },\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, violated ? 1 : 0);
		fclose(f);
	}
	printf("%s %s: %llu executions (%s), %llu elementary cases, %llu states, %llu transitions, %llu outcomes, depth %llu, bound %d, %.1fs%s\n", prop.c_str(), g_thorough ? "thorough" : "quick",
		(unsigned long long)execs, bys.c_str(), (unsigned long long)S->evals, (unsigned long long)S->states, (unsigned long long)choices, (unsigned long long)outs, (unsigned long long)maxd, bmax, wall, capped ? " CAPPED" : "");
	if (getenv("MC_VERBOSE")) {
		std::string t = per; size_t p;
		while ((p = t.find("; ")) != std::string::npos) t.replace(p, 2, "\n  ");
		printf("  %s\n", t.c_str());
		for (int i = 0; i < 128; i++) if (S->stats[i].used) printf("  counter %s = %llu\n", S->stats[i].name, (unsigned long long)S->stats[i].n);
	}
	if (violated) {
		const char *rd = getenv("MC_REPLAY_DIR");
		std::string dir = rd ? rd : wdir;
		std::string rf = dir + "/" + prop + "-" + g_scen[vscen]->name + ".replay";
		for (char &c : rf) if (c == ' ') c = '_';
		FILE *f = fopen(rf.c_str(), "w");
		if (f) {
			fprintf(f, "property %s\nscenario %s\nbound %d\npath %s\n", prop.c_str(), g_scen[vscen]->name, vbound, hex(vpath).c_str());
			fprintf(f, "message %s\n", vmsg.c_str());
			if (!vhist.empty()) { std::vector<uint8_t> hv(vhist.begin(), vhist.end()); fprintf(f, "history %s\n", hex(hv).c_str()); }
			fprintf(f, "--- trace\n%s\n--- stderr\n%s\n", vtrace.c_str(), verr.c_str());
			fclose(f);
		}
		printf("scenario %s: %s\n", g_scen[vscen]->name, vmsg.c_str());
		printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rf.c_str());
		return 1;
	}
	if (unconfirmed) printf("note: %d failures were not reproducible and are not reported (last: %s)\n", unconfirmed, unconf_msg.c_str());
	return 0;
}

} /* namespace mc */

int main(int argc, char **argv) { setvbuf(stdout, NULL, _IOLBF, 0); return mc::engine_main(argc, argv); }

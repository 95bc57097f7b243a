/* Simulated kernel: descriptors, sockets, pipes, event and timer descriptors,
 * epoll and poll, signals, virtual time, threads (fibers under a controlled
 * scheduler) and the heap, all deterministic, with the kernel's freedom
 * exposed to the explorer as choices.  The objects of the library are linked
 * with their libc calls renamed to the sim_* functions defined in simk.cc. */
#ifndef MC_SIMK_H
#define MC_SIMK_H
#include "engine.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>

namespace simk {

typedef std::string Bytes;
typedef std::string Addr;          /* raw sockaddr bytes */

/* calls that can be made to fail (bits of Cfg::faults) */
enum Call : uint64_t {
	F_SOCKET = 1ull << 0, F_BIND = 1ull << 1, F_LISTEN = 1ull << 2, F_ACCEPT = 1ull << 3,
	F_CONNECT = 1ull << 4, F_FCNTL = 1ull << 5, F_SETSOCKOPT = 1ull << 6, F_GETSOCKOPT = 1ull << 7,
	F_GETSOCKNAME = 1ull << 8, F_GETPEERNAME = 1ull << 9, F_EPOLL_CREATE = 1ull << 10,
	F_EPOLL_CTL = 1ull << 11, F_READ = 1ull << 12, F_WRITE = 1ull << 13, F_EVENTFD = 1ull << 14,
	F_TIMERFD_CREATE = 1ull << 15, F_TIMERFD_SETTIME = 1ull << 16, F_PIPE = 1ull << 17,
	F_DUP = 1ull << 18, F_CHMOD = 1ull << 19, F_TIMER_CREATE = 1ull << 20, F_TIMER_SETTIME = 1ull << 21,
	F_SIGACTION = 1ull << 22, F_PTHREAD = 1ull << 23, F_MALLOC = 1ull << 24, F_WAIT = 1ull << 25,
	F_SHUTDOWN = 1ull << 26, F_SENDTO = 1ull << 27,
	F_ALL = (1ull << 28) - 1,
	F_EPOLL_MOD = 1ull << 28,  /* not part of F_ALL: the contexts do not expect it */
};

struct Cfg {
	bool partial = false;     /* short reads and writes (DEV) */
	bool eagain = false;      /* would-block answers although ready (DEV) */
	bool eintr = false;       /* interrupted calls (DEV) */
	bool order = false;       /* readiness order of epoll and poll (DEV) */
	bool spurious = false;    /* spurious wakeups of condition variables (DEV) */
	bool preempt = false;     /* thread switches at scheduling points (DEV) */
	uint64_t faults = 0;      /* calls that may fail (DEV), each at most maxfaults */
	int maxfaults = 99;
	size_t cap = 1 << 20;     /* capacity of one direction of a stream */
	size_t skbmax = 1 << 20;  /* largest piece of a unix stream write */
	bool sigpipe_fatal = false;
	bool allow_leak = false;  /* do not check descriptors and heap at the end */
	bool allow_badclose = false;
	size_t pipe_cap = 65536;
	uint64_t horizon = 20000; /* system calls per execution */
	int connect_mode = 0;     /* inet: 0 asynchronous, 1 immediate success */
	int zero = 0;             /* the how-manieth new descriptor gets the number 0 */
};
extern Cfg cfg;
/* no faults while the harness itself uses the library */
struct NoFault { uint64_t f; NoFault() : f(cfg.faults) { cfg.faults = 0; } ~NoFault() { cfg.faults = f; } };

struct File {
	enum Type { SOCK, PIPE, EVENTFD, TIMERFD, EPOLL, DUMMY } type;
	int refs = 0;             /* descriptors + in flight + held by the environment */
	int id;
	int flags = 0;            /* O_NONBLOCK, access mode */
	virtual ~File() {}
	virtual uint32_t mask() = 0;
	virtual void last_close() {}
};

struct Skb { Bytes data; size_t off = 0; std::vector<File *> fds; Addr from; Addr dst; };

struct Sock : File {
	enum St { NEW, LISTEN, CONNECTING, CONNECTED, FAILED, CLOSED } st = NEW;
	int domain, stype;
	bool lib;                  /* created by the library */
	Addr local, remote;
	Sock *peer = nullptr;
	std::deque<Skb> rx; size_t rxbytes = 0; size_t cap;
	bool fin = false;          /* peer will send no more */
	bool done = false;         /* inet: the end of the stream has arrived (not by a reset) */
	bool pendconn = false;     /* inet: the next connect tells that this one succeeded */
	bool hup = false;          /* peer is completely gone */
	bool rst = false;
	bool wrshut = false, rdshut = false;
	int so_error = 0;
	bool txblock = false;
	std::deque<Sock *> backlog; int backlog_max = 128;
	std::map<std::pair<int,int>, Bytes> opts;
	int pid = 1000, uid = 2000, gid = 3000, ppid = 0, puid = 0, pgid = 0;
	uint64_t complete_at = 0; int complete_err = 0; Sock *complete_to = nullptr;
	uint64_t nread = 0, nwritten = 0;    /* bytes moved by this end */
	int nreadcalls = 0;
	uint32_t mask() override;
	void last_close() override;
	size_t space();
};

/* ---- execution control ---- */
void begin();
void end();
uint64_t now();                       /* ns */
void advance(uint64_t ns);            /* time passes (in the running thread) */
/* an event that happens at a given time */
void at(uint64_t t, std::function<void()> fn);
/* called when the library would block: returns true if it changed something */
extern std::function<bool()> on_idle;
/* true if the calling fd wait should be reported as a violation */
int open_lib_fds();
size_t lib_allocs();
std::string describe_lib_fds();
std::string describe_allocs();
void check_quiescent(const char *when);   /* no lib fds, allocations, timers */
void lib_free(void *p);                /* frees memory returned by the library */
uint64_t lib_malloc_count();
extern uint64_t syscalls;
extern int faults_injected;
bool is_lib_alloc(const void *p);

/* ---- environment side ---- */
Addr mkaddr(const void *sa, size_t len);
Addr in4(uint32_t ip, uint16_t port);
Addr in6(uint16_t port);
Addr un(const char *path);             /* "@x" for abstract */
Sock *env_connect(const Addr &to, const Addr &from = Addr());      /* to a listening socket; NULL if refused */
extern int env_pid;                    /* process behind the next sockets of the environment (0: default) */
Sock *env_listen(const Addr &a, int stype = SOCK_STREAM);
Sock *env_accept(Sock *l);             /* NULL if none */
size_t env_send(Sock *s, const void *p, size_t n, std::vector<File *> fds = {});
Bytes env_recv(Sock *s, size_t max = SIZE_MAX, std::vector<File *> *fds = nullptr);
void env_close(Sock *s);
void env_shutdown_wr(Sock *s);
void env_reset(Sock *s);
void env_abort_connecting(Sock *s, int err);
void env_dgram(const Addr &from, const Addr &to, const void *p, size_t n);
Sock *find_listener(int domain, int stype, const Addr &a);
int env_dummy_fd(int *id = nullptr);   /* a descriptor owned by the application */
void env_dummy_mask(int fd, uint32_t mask);   /* what is pending on it */
void env_close_fd(int fd);
File *file_of(int fd);                 /* NULL if not open */
bool fd_is_lib(int fd);
bool fd_cloexec(int fd);
void env_unref(File *f);
File *env_ref(File *f);
Sock *sock_of(int fd);
int env_pipe(int fds[2]);              /* owned by the application */
int env_eventfd();
int env_eventfd_at(int from);           /* the lowest free number from there on */
void env_eventfd_write(int fd, uint64_t v);
uint64_t env_eventfd_read(int fd);     /* 0 if not readable */
bool fd_readable(int fd);

struct Dgram { Addr from, to; Bytes data; };
extern std::vector<Dgram> dgrams;      /* datagrams sent by the library */

struct SockRec { int fd; Sock *s; int domain, type; };
struct Ev { std::string what; int fd; int a; uint64_t t; };
extern std::vector<Ev> events;         /* socket calls of the library */
extern std::set<std::string> vfs;      /* unix socket files */
extern std::map<std::string, unsigned> vfs_mode;
extern std::map<std::string, std::string> env;  /* environment variables the library sees */
/* answer to connect(): set by scenarios; returns 0 = default behaviour,
 * >0 = fail with this errno at once, <0 = fail with -errno later */
extern std::function<int(Sock *, const Addr &)> connect_policy;
extern std::function<int(Sock *, const Addr &)> bind_policy;   /* errno or 0 */

/* ---- threads ---- */
int spawn(std::function<void()> fn, const char *name);   /* application thread */
void join(int tid);
int self();
void yield_point(const char *what);    /* scheduling point */
extern uint64_t wall;                  /* offset of the wall clock */
extern std::function<void()> async_signal; extern int async_left;   /* signal handler that may interrupt the main thread */
void block_until(std::function<bool()> ready, uint64_t deadline, const char *what);
bool in_threads();
/* happens-before hooks of the race detector (no-ops in the ASAN build) */
void hb_acquire(const void *o);
void hb_release(const void *o);

/* passthrough memory for harness */
} /* namespace simk */
#endif

/* Conformance of the simulated kernel: every bounded sequence of system calls
 * is made on the simulated and on the real kernel and all answers are compared.
 * A difference is a defect of the model, not of the library: it is counted in
 * the evidence (and fails the run when MC_STRICT is set, for development). */
#include "simk.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <algorithm>
using namespace mc;

extern "C" {
int sim_close(int); int sim_pipe2(int *, int); int sim_eventfd(unsigned, int);
int sim_timerfd_create(int, int); int sim_timerfd_settime(int, int, const itimerspec *, itimerspec *);
int sim_socket(int, int, int); int sim_socketpair(int, int, int, int *); int sim_bind(int, const sockaddr *, socklen_t); int sim_listen(int, int);
int sim_accept4(int, sockaddr *, socklen_t *, int); int sim_connect(int, const sockaddr *, socklen_t); int sim_shutdown(int, int);
int sim_getsockname(int, sockaddr *, socklen_t *); int sim_getpeername(int, sockaddr *, socklen_t *); int sim_getsockopt(int, int, int, void *, socklen_t *);
ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); ssize_t sim_sendmsg(int, const msghdr *, int); ssize_t sim_recvmsg(int, msghdr *, int);
int sim_epoll_create1(int); int sim_epoll_ctl(int, int, int, epoll_event *); int sim_epoll_wait(int, epoll_event *, int, int); int sim_poll(pollfd *, nfds_t, int);
}
namespace {
struct Kern {
	int (*close)(int); int (*pipe2)(int *, int); int (*eventfd)(unsigned, int); int (*timerfd_create)(int, int); int (*timerfd_settime)(int, int, const itimerspec *, itimerspec *);
	int (*socket)(int, int, int); int (*socketpair)(int, int, int, int *); int (*bind)(int, const sockaddr *, socklen_t); int (*listen)(int, int);
	int (*accept4)(int, sockaddr *, socklen_t *, int); int (*connect)(int, const sockaddr *, socklen_t); int (*shutdown)(int, int);
	int (*getsockname)(int, sockaddr *, socklen_t *); int (*getpeername)(int, sockaddr *, socklen_t *); int (*getsockopt)(int, int, int, void *, socklen_t *);
	ssize_t (*read)(int, void *, size_t); ssize_t (*write)(int, const void *, size_t); ssize_t (*sendmsg)(int, const msghdr *, int); ssize_t (*recvmsg)(int, msghdr *, int);
	int (*epoll_create1)(int); int (*epoll_ctl)(int, int, int, epoll_event *); int (*epoll_wait)(int, epoll_event *, int, int); int (*poll)(pollfd *, nfds_t, int);
	bool real;
	void pass(unsigned ms) const { if (real) usleep(ms * 1000); else simk::advance(ms * 1000000ull); }
	void net() const { if (!real) simk::advance(2000); }
};
const Kern SIM = {sim_close, sim_pipe2, sim_eventfd, sim_timerfd_create, sim_timerfd_settime, sim_socket, sim_socketpair, sim_bind, sim_listen, sim_accept4, sim_connect, sim_shutdown, sim_getsockname, sim_getpeername, sim_getsockopt, sim_read, sim_write, sim_sendmsg, sim_recvmsg, sim_epoll_create1, sim_epoll_ctl, sim_epoll_wait, sim_poll, false};
const Kern REAL = {::close, ::pipe2, ::eventfd, ::timerfd_create, ::timerfd_settime, ::socket, ::socketpair, ::bind, ::listen, [](int f, sockaddr *a, socklen_t *l, int g) { return ::accept4(f, a, l, g); }, [](int f, const sockaddr *a, socklen_t l) { return ::connect(f, a, l); }, ::shutdown, [](int f, sockaddr *a, socklen_t *l) { return ::getsockname(f, a, l); }, [](int f, sockaddr *a, socklen_t *l) { return ::getpeername(f, a, l); }, ::getsockopt, ::read, ::write, ::sendmsg, ::recvmsg, ::epoll_create1, ::epoll_ctl, ::epoll_wait, ::poll, true};

typedef std::vector<std::string> Log;
std::string fmt(const char *f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap); return b; }
std::string res(const char *what, long r) { int e = errno; return r < 0 ? fmt("%s: %s", what, strerrorname_np(e)) : fmt("%s: %ld", what, r); }
short pollbits(const Kern &k, int fd) { pollfd p = {fd, (short)(POLLIN | POLLOUT | POLLPRI | POLLRDHUP), 0}; k.poll(&p, 1, 0); return p.revents; }
std::string pollstr(short r) { std::string s; if (r & POLLIN) s += "IN "; if (r & POLLOUT) s += "OUT "; if (r & POLLPRI) s += "PRI "; if (r & POLLERR) s += "ERR "; if (r & POLLHUP) s += "HUP "; if (r & POLLRDHUP) s += "RDHUP "; if (r & POLLNVAL) s += "NVAL "; return s; }

/* runs the same operations on both kernels; differences that do not persist are noise of the real one */
void compare(const std::function<void(const Kern &, Log &)> &run)
{
	static bool strict = getenv("MC_STRICT") != nullptr;
	Log a, b;
	run(SIM, a);
	for (int i = 0; i < 3; i++) { b.clear(); run(REAL, b); if (a == b) break; }
	if (a == b) { count_trace(1); for (auto &l : a) note("  %s", l.c_str()); return; }
	std::string d;
	for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { std::string x = i < a.size() ? a[i] : "-", y = i < b.size() ? b[i] : "-"; note("  sim %-50s real %s%s", x.c_str(), y.c_str(), x == y ? "" : "   <----"); if (x != y && d.empty()) d = "sim " + x + ", real " + y + " after " + (i ? a[i - 1] : "nothing"); }
	mc::stat("conformance_mismatches", 1);
	if (strict) fail("the simulated kernel differs: %s", d.c_str());
}
int uniq() { static int n; return n++; }
/* an address on both kernels */
struct AddrOf { sockaddr_storage ss; socklen_t len; };
AddrOf anyaddr(int fam, const char *tag, int n)
{
	AddrOf a; memset(&a, 0, sizeof(a));
	if (fam == AF_INET) { sockaddr_in *i = (sockaddr_in *)&a.ss; i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.len = sizeof(*i); }
	else if (fam == AF_INET6) { sockaddr_in6 *i = (sockaddr_in6 *)&a.ss; i->sin6_family = AF_INET6; i->sin6_addr = in6addr_loopback; a.len = sizeof(*i); }
	else { sockaddr_un *u = (sockaddr_un *)&a.ss; u->sun_family = AF_UNIX; int l = snprintf(u->sun_path + 1, 90, "mcconf-%d-%d-%s", (int)getpid(), n, tag); a.len = (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + l); }
	return a;
}
void nolinger(const Kern &k, int fd) { if (k.real) { linger l = {1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); } }

/* a connected stream */
void conf_stream(int fam, int depth)
{
	static const char *N[] = {"send a 1", "send a 10", "recv b 5", "recv b 64", "shut a", "shut b", "close a", "close b", "send b 3", "recv a 64", "err a", "err b", "shutrd b"};
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(13, "operation"));
	int n = uniq();
	compare([&](const Kern &k, Log &l) {
		int ls = k.socket(fam, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0), a = k.socket(fam, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0), b;
		AddrOf ad = anyaddr(fam, "s", n);
		k.bind(ls, (sockaddr *)&ad.ss, ad.len); k.listen(ls, 5);
		ad.len = sizeof(ad.ss); k.getsockname(ls, (sockaddr *)&ad.ss, &ad.len);
		int r = k.connect(a, (sockaddr *)&ad.ss, ad.len); l.push_back(res("connect", r)); k.net();
		l.push_back("a " + pollstr(pollbits(k, a)));
		int er = -1; socklen_t el = sizeof(er); k.getsockopt(a, SOL_SOCKET, SO_ERROR, &er, &el); l.push_back(fmt("so_error %d", er));
		b = k.accept4(ls, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); l.push_back(b < 0 ? res("accept", b) : "accepted");
		char buf[64];
		for (int op : ops) {
			const char *w = N[op]; int &fd = strchr(w, 'a') && std::string(w).find(" a") != std::string::npos ? a : b;
			memset(buf, 'x', sizeof(buf));
			iovec v = {buf, op == 0 ? 1u : op == 1 ? 10u : op == 8 ? 3u : op == 2 ? 5u : 64u};
			msghdr m; memset(&m, 0, sizeof(m)); m.msg_iov = &v; m.msg_iovlen = 1;
			if (fd < 0) { l.push_back("-"); continue; }
			switch (op) {
			case 0: case 1: case 8: l.push_back(res(w, k.sendmsg(fd, &m, MSG_NOSIGNAL))); break;
			case 2: case 3: case 9: l.push_back(res(w, k.recvmsg(fd, &m, 0))); break;
			case 4: case 5: l.push_back(res(w, k.shutdown(fd, SHUT_WR))); break;
			case 12: if (fam != AF_UNIX) { l.push_back("-"); break; } l.push_back(res(w, k.shutdown(fd, SHUT_WR))); break;
			case 6: case 7: l.push_back(res(w, k.close(fd))); fd = -1; break;
			case 10: case 11: { int e = -1; socklen_t el = sizeof(e); k.getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &el); l.push_back(fmt("%s %s", w, strerrorname_np(e))); break; }
			}
			k.net();
			if (a >= 0) l.push_back("a " + pollstr(pollbits(k, a)));
			if (b >= 0) l.push_back("b " + pollstr(pollbits(k, b)));
		}
		if (a >= 0) { nolinger(k, a); k.close(a); } if (b >= 0) { nolinger(k, b); k.close(b); } k.close(ls);
	});
}
/* sockets that are not connected, listeners and pending connections */
void conf_connect(int fam, int depth)
{
	static const char *N[] = {"listen", "close l", "connect a", "connect a again or nowhere", "accept", "send a", "recv a", "shut a", "err a", "new a", "close b", "peer a"};
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(12, "operation"));
	int n = uniq();
	compare([&](const Kern &k, Log &l) {
		int ls = -1, a = k.socket(fam, SOCK_STREAM | SOCK_NONBLOCK, 0); std::vector<int> bs; int tries = 0;
		AddrOf ad = anyaddr(fam, "c", n), no = anyaddr(fam, "none", n);
		/* a port that nobody listens on */
		int t = k.socket(fam, SOCK_STREAM | SOCK_NONBLOCK, 0); k.bind(t, (sockaddr *)&ad.ss, ad.len); ad.len = sizeof(ad.ss); k.getsockname(t, (sockaddr *)&ad.ss, &ad.len);
		int t2 = k.socket(fam, SOCK_STREAM, 0); if (fam != AF_UNIX) { k.bind(t2, (sockaddr *)&no.ss, no.len); no.len = sizeof(no.ss); k.getsockname(t2, (sockaddr *)&no.ss, &no.len); }
		char buf[16] = {0}; iovec v = {buf, 16}; msghdr m;
		for (int op : ops) {
			memset(&m, 0, sizeof(m)); m.msg_iov = &v; m.msg_iovlen = 1;
			switch (op) {
			case 0: if (ls >= 0 || t < 0) { l.push_back("-"); break; } ls = t; t = -1; l.push_back(res("listen", k.listen(ls, 5))); break;
			case 1: if (ls < 0) { l.push_back("-"); break; } l.push_back(res("close l", k.close(ls))); ls = -1; break;
			/* at most two attempts with the same socket; libpomp makes one */
			case 2: if (tries++ >= 2 || (tries == 2 && fam != AF_UNIX)) { l.push_back("-"); break; } l.push_back(res("connect", k.connect(a, (sockaddr *)&ad.ss, ad.len))); break;
			case 3: if (tries++ >= 2 || (tries == 2 && fam != AF_UNIX)) { l.push_back("-"); break; } l.push_back(res("connect nowhere", k.connect(a, (sockaddr *)&no.ss, no.len))); break;
			case 4: if (ls < 0) { l.push_back("-"); break; } { int b = k.accept4(ls, nullptr, nullptr, SOCK_NONBLOCK); l.push_back(b < 0 ? res("accept", b) : "accepted"); if (b >= 0) bs.push_back(b); break; }
			case 5: l.push_back(res("send", k.sendmsg(a, &m, MSG_NOSIGNAL))); break;
			case 6: l.push_back(res("recv", k.recvmsg(a, &m, 0))); break;
			case 7: { sockaddr_storage ss; socklen_t sl = sizeof(ss); if (k.getpeername(a, (sockaddr *)&ss, &sl) < 0) { l.push_back("not connected"); break; } l.push_back(res("shut", k.shutdown(a, SHUT_WR))); break; }
			case 8: { int e = -1; socklen_t el = sizeof(e); k.getsockopt(a, SOL_SOCKET, SO_ERROR, &e, &el); l.push_back(fmt("err %s", strerrorname_np(e))); break; }
			case 9: tries = 0; k.close(a); a = k.socket(fam, SOCK_STREAM | SOCK_NONBLOCK, 0); l.push_back("new a"); break;
			case 10: if (bs.empty()) { l.push_back("-"); break; } l.push_back(res("close b", k.close(bs.back()))); bs.pop_back(); break;
			case 11: { sockaddr_storage ss; socklen_t sl = sizeof(ss); int r = k.getpeername(a, (sockaddr *)&ss, &sl); l.push_back(res("peer", r)); if (r == 0) l.push_back(sl == ad.len && !memcmp(&ss, &ad.ss, sl) ? "peer is the listener" : fmt("peer is another (%d bytes)", (int)sl)); break; }
			}
			k.net();
			l.push_back("a " + pollstr(pollbits(k, a)));
			if (ls >= 0) l.push_back("l " + pollstr(pollbits(k, ls)));
			for (int b : bs) l.push_back("b " + pollstr(pollbits(k, b)));
		}
		nolinger(k, a); k.close(a); for (int b : bs) { nolinger(k, b); k.close(b); } if (ls >= 0) k.close(ls); if (t >= 0) k.close(t); k.close(t2);
	});
}
/* datagrams */
void conf_dgram(int fam, int depth)
{
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(10, "operation"));
	compare([&](const Kern &k, Log &l) {
		int s[2]; AddrOf ad[3];
		for (int i = 0; i < 3; i++) {
			int x = k.socket(fam, SOCK_DGRAM | SOCK_NONBLOCK, 0); ad[i] = anyaddr(fam, "", 0);
			l.push_back(res("bind", k.bind(x, (sockaddr *)&ad[i].ss, ad[i].len))); ad[i].len = sizeof(ad[i].ss); k.getsockname(x, (sockaddr *)&ad[i].ss, &ad[i].len);
			if (i < 2) s[i] = x; else k.close(x);
		}
		static char big[70000]; char buf[64]; sockaddr_storage from;
		for (int op : ops) {
			msghdr m; memset(&m, 0, sizeof(m)); iovec v = {buf, 0}; m.msg_iov = &v; m.msg_iovlen = 1;
			auto send = [&](int f, int to, size_t n) { v.iov_base = big; v.iov_len = n; m.msg_name = &ad[to].ss; m.msg_namelen = ad[to].len; l.push_back(res(fmt("send %d>%d %zu", f, to, n).c_str(), k.sendmsg(s[f], &m, MSG_NOSIGNAL))); };
			auto recv = [&](int f, size_t n) {
				v.iov_base = buf; v.iov_len = n; m.msg_name = &from; m.msg_namelen = sizeof(from); char ctl[64]; m.msg_control = ctl; m.msg_controllen = sizeof(ctl);
				ssize_t r = k.recvmsg(s[f], &m, 0); l.push_back(res(fmt("recv %d %zu", f, n).c_str(), r));
				if (r >= 0) { int w = -1; for (int i = 0; i < 2; i++) if (m.msg_namelen == ad[i].len && !memcmp(&from, &ad[i].ss, ad[i].len)) w = i; l.push_back(fmt("from %d flags %s%s control %d", w, m.msg_flags & MSG_TRUNC ? "TRUNC " : "", m.msg_flags & MSG_CTRUNC ? "CTRUNC" : "", (int)m.msg_controllen)); }
			};
			switch (op) {
			case 0: send(0, 1, 5); break; case 1: send(0, 1, 40); break; case 2: send(1, 0, 0); break; case 3: send(0, 2, 5); break; case 4: send(0, 1, 65528); break;
			case 5: recv(1, 64); break; case 6: recv(1, 5); break; case 7: recv(0, 64); break; case 8: recv(1, 0); break; case 9: send(0, 0, 7); break;
			}
			for (int i = 0; i < 2; i++) l.push_back(fmt("%d ", i) + pollstr(pollbits(k, s[i])));
		}
		k.close(s[0]); k.close(s[1]);
	});
}
/* descriptors passed over a unix stream */
void conf_fds(int depth)
{
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(11, "operation"));
	compare([&](const Kern &k, Log &l) {
		int sv[2]; k.socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv);
		int e[2]; e[0] = k.eventfd(7, EFD_NONBLOCK); e[1] = k.eventfd(9, EFD_NONBLOCK);
		char c = 'a';
		for (int op : ops) {
			msghdr m; memset(&m, 0, sizeof(m)); char buf[64]; iovec v = {buf, 0}; m.msg_iov = &v; m.msg_iovlen = 1;
			alignas(cmsghdr) char ctl[CMSG_SPACE(4 * sizeof(int))]; memset(ctl, 0, sizeof(ctl));
			auto send = [&](size_t n, int nf) {
				if (sv[0] < 0) { l.push_back("-"); return; }
				for (size_t i = 0; i < n; i++) buf[i] = c++; v.iov_len = n;
				if (nf) { m.msg_control = ctl; m.msg_controllen = CMSG_SPACE(nf * sizeof(int)); cmsghdr *h = CMSG_FIRSTHDR(&m); h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(nf * sizeof(int)); memcpy(CMSG_DATA(h), e, nf * sizeof(int)); }
				l.push_back(res(fmt("send %zu with %d", n, nf).c_str(), k.sendmsg(sv[0], &m, MSG_NOSIGNAL)));
			};
			auto recv = [&](size_t n, int room) {
				v.iov_len = n; if (room) { m.msg_control = ctl; m.msg_controllen = CMSG_SPACE(room * sizeof(int)); }
				ssize_t r = k.recvmsg(sv[1], &m, MSG_CMSG_CLOEXEC);
				l.push_back(res(fmt("recv %zu room %d", n, room).c_str(), r) + (r > 0 ? " " + std::string(buf, r) : ""));
				if (r < 0) return;
				std::string f = m.msg_flags & MSG_CTRUNC ? "CTRUNC" : ""; f += fmt(" control %d", (int)m.msg_controllen);
				for (cmsghdr *h = CMSG_FIRSTHDR(&m); h; h = CMSG_NXTHDR(&m, h)) {
					size_t nf = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
					for (size_t i = 0; i < nf; i++) { int x; memcpy(&x, CMSG_DATA(h) + i * sizeof(int), sizeof(int)); uint64_t q = 0; k.read(x, &q, 8); k.write(x, &q, 8); f += fmt(" fd of %d", (int)q); k.close(x); }
				}
				l.push_back(f);
			};
			switch (op) {
			case 0: send(4, 0); break; case 1: send(4, 1); break; case 2: send(6, 2); break; case 3: recv(2, 0); break; case 4: recv(2, 4); break; case 5: recv(4, 4); break;
			case 6: recv(30, 4); break; case 7: recv(30, 1); break; case 8: recv(5, 1); break; case 9: if (sv[0] >= 0) { k.close(sv[0]); sv[0] = -1; } l.push_back("close"); break;
			case 10: { char q[30]; ssize_t r = k.read(sv[1], q, 30); l.push_back(res("read", r)); break; }
			}
			l.push_back(pollstr(pollbits(k, sv[1])));
		}
		if (sv[0] >= 0) k.close(sv[0]); k.close(sv[1]); k.close(e[0]); k.close(e[1]);
	});
}
/* epoll over several kinds of descriptors */
void conf_epoll(int depth)
{
	std::vector<std::pair<int, int>> ops;
	for (int i = 0; i < depth; i++) { int o = pick(12, "operation"); int m = o < 4 ? pick(4, "mask") : o == 4 ? pick(2, "which") : 0; ops.push_back({o, m}); }
	compare([&](const Kern &k, Log &l) {
		static const uint32_t M[] = {EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT | EPOLLPRI, 0};
		int ep = k.epoll_create1(EPOLL_CLOEXEC), ev = k.eventfd(0, EFD_NONBLOCK), p[2]; k.pipe2(p, O_NONBLOCK);
		int f[3] = {ev, p[0], p[1]};
		auto ctl = [&](int op, int i, uint32_t m) { epoll_event e; memset(&e, 0, sizeof(e)); e.events = m; e.data.u32 = i; if (f[i] < 0) return std::string("-"); return res(fmt("ctl %d %d %x", op, i, m).c_str(), k.epoll_ctl(ep, op, f[i], &e)); };
		for (auto &o : ops) {
			uint64_t q = 1; char c;
			switch (o.first) {
			case 0: l.push_back(ctl(EPOLL_CTL_ADD, 0, M[o.second])); break;
			case 1: l.push_back(ctl(EPOLL_CTL_ADD, 1, M[o.second])); break;
			/* at most two attempts with the same socket; libpomp makes one */
			case 2: l.push_back(ctl(EPOLL_CTL_ADD, 2, M[o.second])); break;
			case 3: l.push_back(ctl(EPOLL_CTL_MOD, 0, M[o.second])); break;
			case 4: l.push_back(ctl(EPOLL_CTL_DEL, o.second, 0)); break;
			case 5: l.push_back(res("signal", k.write(ev, &q, 8))); break;
			case 6: l.push_back(res("clear", k.read(ev, &q, 8))); break;
			case 7: if (f[2] < 0) { l.push_back("-"); break; } l.push_back(res("write", k.write(p[1], "x", 1))); break;
			case 8: if (f[1] < 0) { l.push_back("-"); break; } l.push_back(res("read", k.read(p[0], &c, 1))); break;
			case 9: if (f[1] < 0) { l.push_back("-"); break; } k.close(p[0]); f[1] = -1; l.push_back("close r"); break;
			case 10: if (f[2] < 0) { l.push_back("-"); break; } k.close(p[1]); f[2] = -1; l.push_back("close w"); break;
			case 11: q = UINT64_MAX - 1; l.push_back(res("fill", k.write(ev, &q, 8))); break;
			}
			epoll_event e[8]; int n = k.epoll_wait(ep, e, 8, 0); std::vector<std::string> s;
			for (int i = 0; i < n; i++) s.push_back(fmt("%u:%x", e[i].data.u32, e[i].events));
			std::sort(s.begin(), s.end()); std::string t = fmt("wait %d", n); for (auto &x : s) t += " " + x; l.push_back(t);
		}
		k.close(ep); k.close(ev); if (f[1] >= 0) k.close(p[0]); if (f[2] >= 0) k.close(p[1]);
	});
}
/* pipes and event descriptors */
void conf_pipe(int depth)
{
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(14, "operation"));
	compare([&](const Kern &k, Log &l) {
		bool full = false; /* a byte taken from a full page does not make room: not modelled */
		int p[2]; k.pipe2(p, O_NONBLOCK | O_CLOEXEC); int ev = k.eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); static char big[70000];
		for (int op : ops) {
			uint64_t q = 1;
			switch (op) {
			case 0: case 1: if (p[1] < 0) { l.push_back("-"); break; } if (op) { while (p[0] >= 0 && k.read(p[0], big, 70000) > 0) ; full = true; } l.push_back(res("write", k.write(p[1], big, op ? 65536 : 1))); break;
			case 2: case 3: if (p[0] < 0 || (op == 2 && full)) { l.push_back("-"); break; } if (op == 3) full = false; l.push_back(res("read", k.read(p[0], big, op == 2 ? 1 : 70000))); break;
			case 4: case 5: if (p[op - 4] < 0) { l.push_back("-"); break; } k.close(p[op - 4]); p[op - 4] = -1; l.push_back("close"); break;
			case 6: l.push_back(res("signal", k.write(ev, &q, 8))); break;
			case 7: l.push_back(res("clear", k.read(ev, &q, 8)) + fmt(" %llu", (unsigned long long)q)); break;
			case 8: q = UINT64_MAX - 1; l.push_back(res("signal max", k.write(ev, &q, 8))); break;
			case 9: q = UINT64_MAX; l.push_back(res("signal too much", k.write(ev, &q, 8))); break;
			case 10: l.push_back(res("short write", k.write(ev, &q, 4))); break;
			case 11: l.push_back(res("short read", k.read(ev, &q, 4))); break;
			case 12: if (p[1] < 0) { l.push_back("-"); break; } l.push_back(res("read of the writing end", k.read(p[1], big, 1))); break;
			case 13: if (p[0] < 0) { l.push_back("-"); break; } l.push_back(res("write to the reading end", k.write(p[0], big, 1))); break;
			}
			for (int i = 0; i < 2; i++) if (p[i] >= 0) l.push_back(fmt("%d ", i) + pollstr(pollbits(k, p[i])));
			l.push_back("e " + pollstr(pollbits(k, ev)));
		}
		for (int i = 0; i < 2; i++) if (p[i] >= 0) k.close(p[i]); k.close(ev);
	});
}
/* timer descriptors; the real clock goes on by itself, so times are far apart */
void conf_timerfd(int depth)
{
	std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(pick(7, "operation"));
	compare([&](const Kern &k, Log &l) {
		int t = k.timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK | TFD_CLOEXEC);
		auto set = [&](long ms, long per) { itimerspec s; memset(&s, 0, sizeof(s)); s.it_value.tv_sec = ms / 1000; s.it_value.tv_nsec = ms % 1000 * 1000000; s.it_interval.tv_sec = per / 1000; s.it_interval.tv_nsec = per % 1000 * 1000000; l.push_back(res(fmt("set %ld %ld", ms, per).c_str(), k.timerfd_settime(t, 0, &s, nullptr))); };
		for (int op : ops) {
			uint64_t q = 0; ssize_t r;
			switch (op) {
			case 0: set(0, 0); break; case 1: set(12, 0); break; case 2: set(12, 10000); break; case 3: set(0, 12); break; case 4: set(10000, 12); break;
			case 5: k.pass(16); l.push_back("16 ms"); break;
			case 6: r = k.read(t, &q, 8); l.push_back(res("read", r) + fmt(" %d", (int)q)); break;
			}
			l.push_back(pollstr(pollbits(k, t)));
		}
		k.close(t);
	});
}
Reg r([] {
	signal(SIGPIPE, SIG_IGN);
	add("C05", "conf-unix", [] { conf_stream(AF_UNIX, thorough() ? 5 : 4); });
	add("C05", "conf-inet", [] { conf_stream(AF_INET, thorough() ? 4 : 3); });
	add("C08", "conf-unix", [] { conf_connect(AF_UNIX, thorough() ? 5 : 4); });
	add("C08", "conf-inet", [] { conf_connect(AF_INET, thorough() ? 4 : 3); });
	add("C10", "conf-fds", [] { conf_fds(thorough() ? 6 : 4); });
	add("C12", "conf-epoll", [] { conf_epoll(thorough() ? 4 : 3); });
	add("C15", "conf-timerfd", [] { conf_timerfd(thorough() ? 4 : 3); });
	add("C20", "conf-inet", [] { conf_dgram(AF_INET, thorough() ? 5 : 4); });
	add("C20", "conf-inet6", [] { conf_dgram(AF_INET6, thorough() ? 4 : 3); });
	add("C26", "conf-pipe", [] { conf_pipe(thorough() ? 5 : 4); });
});
}

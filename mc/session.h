/* Sessions of contexts and connections in the simulated kernel, with a monitor
 * that checks every observation against what a user may rely on. */
#ifndef MC_SESSION_H
#define MC_SESSION_H
#include "wire.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <memory>
#include <algorithm>

extern "C" {
struct pomp_evt_ops;
extern const struct pomp_evt_ops pomp_evt_fd_ops, pomp_evt_posix_ops;
const struct pomp_evt_ops *pomp_evt_set_ops(const struct pomp_evt_ops *);
}

namespace ses {
using namespace mc;
using simk::Sock; using simk::Addr; using simk::now;
typedef std::string Bytes;
static const uint64_t MS = 1000000ull;

enum Type { SERVER, CLIENT, DGRAM };

struct SendRec { Bytes data; struct pomp_buffer *buf; uint64_t end; bool done = false, qe = false, reported = false; };
struct Ctx;
struct Conn {
	int id; Ctx *x; struct pomp_conn *p; Sock *s; int fd;
	bool live = true, shut = false, lossy = false, suspended = false;
	Bytes acc;                      /* everything accepted for sending */
	uint64_t base = 0;              /* bytes written before the first accepted one (none) */
	std::vector<SendRec> sends; size_t nextrep = 0;
	int nmsg = 0;
	/* completion is only known where the monitor looks */
	void update() { if (!s) return; for (auto &r : sends) if (!r.done && s->nwritten >= r.end) { r.done = true; r.qe = &r == &sends.back(); } }
};
/* what the library must deliver from one of its sockets */
struct Rx { std::deque<Bytes> msgs; Bytes raw; std::deque<Bytes> lost; };

struct Ctx {
	int id; struct pomp_ctx *p = nullptr; Type type = SERVER; bool raw = false, sendcb = false, sockcb = false;
	bool running = false, stopping = false, restarting = false; int depth = 0;
	std::vector<std::unique_ptr<Conn>> conns;
	Addr addr;
	int ndiscon = 0, ncon = 0, nmsg = 0, nrep = 0;
	Conn *find(struct pomp_conn *c) { for (auto &k : conns) if (k->live && k->p == c) return k.get(); return nullptr; }
	std::vector<Conn *> live() { std::vector<Conn *> v; for (auto &k : conns) if (k->live) v.push_back(k.get()); return v; }
	Conn *last() { auto v = live(); return v.empty() ? nullptr : v.back(); }
};

struct World {
	struct pomp_loop *loop = nullptr;
	std::vector<std::unique_ptr<Ctx>> ctxs;
	std::map<Sock *, Rx> rx;
	std::map<Sock *, Bytes> wire;      /* what the environment has read from a peer of the library */
	std::map<Sock *, Sock *> envof;    /* socket of the library -> its peer in the environment */
	std::vector<Sock *> gone;
	int fam = AF_INET; bool poll = false;
	int indepth = 0;
	bool mayfail = false;     /* starting may fail: the addresses are not good */
	bool lossy_ok = false;             /* faults: deliveries may be missing, never wrong */
	bool sends_unreported_ok = false;
	int nlost = 0;
	std::function<void(Ctx &, Conn &, int ev, const struct pomp_msg *)> on_event;
	std::function<void(Ctx &, Conn &, struct pomp_buffer *)> on_raw;
	std::function<void(Ctx &, Conn &, struct pomp_buffer *, uint32_t)> on_send;
	std::function<void(Ctx &, int fd, int kind)> on_sock;
	struct SockEv { Ctx *x; int fd; int kind; uint64_t t; };
	std::vector<SockEv> sockevs;
	~World() {}
};
inline World *W = nullptr;

inline const char *evname(int e) { return e == POMP_EVENT_CONNECTED ? "CONNECTED" : e == POMP_EVENT_DISCONNECTED ? "DISCONNECTED" : "MSG"; }
inline Addr addr_of(int fam, int n = 0)
{
	if (fam == AF_INET) return simk::in4(INADDR_LOOPBACK, (uint16_t)(5000 + n));
	if (fam == AF_INET6) return simk::in6((uint16_t)(5000 + n));
	return simk::un(n == 0 ? "@mc" : n == 1 ? "/tmp/mc.sock" : "@mc2");
}
inline const sockaddr *sa(const Addr &a) { return (const sockaddr *)a.data(); }

/* message number id with a payload that makes it n bytes long in total */
inline Bytes mkmsg(uint32_t id, size_t n = 12)
{
	if (n <= 12) return ref::message(id, {});
	if (n <= 14) return ref::message(id, {ref::vi(ref::I8, (int)(id % 100))});
	/* a buffer argument of the right size: type byte, size varint, data */
	for (size_t k = n - 14;; k--) {
		Bytes d; for (size_t i = 0; i < k; i++) d += (char)(id * 37 + i * 11 + (i >> 8));
		Bytes m = ref::message(id, {ref::vb(d)});
		if (m.size() <= n || k == 0) return m;
	}
}
inline struct pomp_msg *libmsg(const Bytes &b) { simk::NoFault nf; struct pomp_msg *m = wire::msg_of(b); MC_CHECK(m, "cannot make a message of %s", ref::hexs(b)); return m; }

inline void update_all() { for (auto &x : W->ctxs) for (auto &c : x->conns) if (c->live) c->update(); }

/* ---- callbacks ---- */
inline Conn *dgram_conn(Ctx &x, struct pomp_conn *conn);
inline void ev_cb(struct pomp_ctx *p, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *msg, void *ud)
{
	Ctx &x = *(Ctx *)ud;
	update_all();
	MC_CHECK(x.p == p, "event callback with another context");
	MC_CHECK(x.running, "%s event after the context was stopped", evname(ev));
	MC_CHECK(conn, "%s event without a connection", evname(ev));
	x.depth++; W->indepth++;
	if (ev == POMP_EVENT_CONNECTED) {
		MC_CHECK(!x.find(conn), "second CONNECTED event for a connection");
		MC_CHECK(!msg, "CONNECTED event with a message");
		auto c = std::unique_ptr<Conn>(new Conn());
		c->id = (int)x.conns.size(); c->x = &x; c->p = conn; c->fd = pomp_conn_get_fd(conn);
		c->s = simk::sock_of(c->fd);
		MC_CHECK(c->s, "CONNECTED with descriptor %d, which is no socket", c->fd);
		for (auto &o : x.conns) MC_CHECK(!(o->live && o->s == c->s), "two connections on one socket");
		x.ncon++;
		note("    [%d] CONNECTED conn %d (fd %d)", x.id, c->id, c->fd);
		x.conns.push_back(std::move(c));
	} else {
		Conn *c = x.type == DGRAM && ev == POMP_EVENT_MSG ? dgram_conn(x, conn) : x.find(conn);
		MC_CHECK(c, "%s event for a connection that is not connected", evname(ev));
		if (ev == POMP_EVENT_DISCONNECTED) {
			note("    [%d] DISCONNECTED conn %d", x.id, c->id);
			MC_CHECK(!msg, "DISCONNECTED event with a message");
			x.ndiscon++;
			Rx &r = W->rx[c->s];
			if (!c->lossy && !x.stopping && !W->lossy_ok && !c->s->rst && !c->suspended) MC_CHECK(r.msgs.empty() && r.raw.empty(), "conn %d ended normally but %zu messages that arrived before (%zu raw bytes) were not delivered", c->id, r.msgs.size(), r.raw.size());
		} else {
			MC_CHECK(ev == POMP_EVENT_MSG && msg, "event %d without a message", (int)ev);
			MC_CHECK(!x.raw, "message event on a raw context");
			Bytes b = wire::msg_bytes(msg);
			x.nmsg++; c->nmsg++;
			note("    [%d] MSG conn %d id %u, %zu bytes", x.id, c->id, pomp_msg_get_id(msg), b.size());
			if (x.type != DGRAM) {
				Rx &r = W->rx[c->s];
				MC_CHECK(!r.msgs.empty(), "message id %u of %zu bytes delivered on conn %d, but none is due (duplicated or invented)", pomp_msg_get_id(msg), b.size(), c->id);
				/* with faults a message may be lost as a whole, one for each failure */
				if (W->lossy_ok) for (int k = 0; k < simk::faults_injected && r.msgs.size() > 1 && r.msgs.front() != b; k++) { r.msgs.pop_front(); W->nlost++; }
				MC_CHECK(r.msgs.front() == b, "message delivered on conn %d is %s instead of %s", c->id, ref::hexs(b), ref::hexs(r.msgs.front()));
				r.msgs.pop_front();
			}
			observe(pomp_msg_get_id(msg));
		}
	}
	observe(ev);
	Conn *c = x.find(conn);
	if (W->on_event) W->on_event(x, *c, ev, msg);
	if (ev == POMP_EVENT_MSG && x.type != DGRAM) {
		/* the message given to the callback stays as it is */
	}
	if (ev == POMP_EVENT_DISCONNECTED) { c->update(); c->live = false; }
	x.depth--; W->indepth--;
}
/* a connection whose DISCONNECTED event was given may still report its sends while it is closed */
inline Conn *find_ending(Ctx &x, struct pomp_conn *p) { if (Conn *c = x.find(p)) return c; for (size_t i = x.conns.size(); i-- > 0;) if (x.conns[i]->p == p) return x.conns[i].get(); return nullptr; }
inline Conn *dgram_conn(Ctx &x, struct pomp_conn *conn)
{
	/* a datagram context has one pseudo connection that is never announced */
	for (auto &c : x.conns) if (c->live && (c->p == conn || !c->p || !conn)) { if (conn && !c->p) { c->p = conn; c->fd = pomp_conn_get_fd(conn); c->s = simk::sock_of(c->fd); } return c.get(); }
	auto c = std::unique_ptr<Conn>(new Conn());
	if (!conn) { c->id = (int)x.conns.size(); c->x = &x; c->p = nullptr; c->fd = -1; c->s = nullptr; x.conns.push_back(std::move(c)); return x.conns.back().get(); }
	c->id = (int)x.conns.size(); c->x = &x; c->p = conn; c->fd = pomp_conn_get_fd(conn); c->s = simk::sock_of(c->fd);
	x.conns.push_back(std::move(c));
	return x.conns.back().get();
}
inline void raw_cb(struct pomp_ctx *p, struct pomp_conn *conn, struct pomp_buffer *buf, void *ud)
{
	Ctx &x = *(Ctx *)ud;
	update_all();
	MC_CHECK(x.p == p, "raw callback with another context");
	MC_CHECK(x.running, "data delivered after the context was stopped");
	MC_CHECK(x.raw, "raw data on a message context");
	Conn *c = x.type == DGRAM ? dgram_conn(x, conn) : x.find(conn);
	MC_CHECK(c, "data for a connection that is not connected");
	Bytes b = wire::buf_bytes(buf);
	x.nmsg++; c->nmsg++;
	note("    [%d] RAW conn %d %zu bytes", x.id, c->id, b.size());
	MC_CHECK(!b.empty(), "empty raw buffer delivered");
	if (x.type != DGRAM) {
		Rx &r = W->rx[c->s];
		MC_CHECK(r.raw.compare(0, b.size(), b) == 0 && b.size() <= r.raw.size(), "raw data delivered on conn %d is not what was sent: %s, expected %s", c->id, ref::hexs(b), ref::hexs(r.raw));
		r.raw.erase(0, b.size());
	}
	x.depth++; W->indepth++;
	if (W->on_raw) W->on_raw(x, *c, buf);
	x.depth--; W->indepth--;
}
inline void send_cb(struct pomp_ctx *p, struct pomp_conn *conn, struct pomp_buffer *buf, uint32_t status, void *cookie, void *ud)
{
	Ctx &x = *(Ctx *)ud;
	update_all();
	MC_CHECK(x.p == p, "send callback with another context");
	MC_CHECK(x.running, "send report after the context was stopped");
	Conn *c = x.type == DGRAM ? dgram_conn(x, conn) : find_ending(x, conn);
	MC_CHECK(c, "send report for an unknown connection");
	c->update();
	Bytes b = wire::buf_bytes(buf);
	x.nrep++;
	note("    [%d] SENT conn %d %zu bytes status %x", x.id, c->id, b.size(), status);
	MC_CHECK(!cookie, "send report with a cookie");
	MC_CHECK((status & ~(POMP_SEND_STATUS_OK | POMP_SEND_STATUS_ERROR | POMP_SEND_STATUS_ABORTED | POMP_SEND_STATUS_QUEUE_EMPTY)) == 0, "send report with status %x", status);
	int base = status & (POMP_SEND_STATUS_OK | POMP_SEND_STATUS_ERROR | POMP_SEND_STATUS_ABORTED);
	MC_CHECK(base == POMP_SEND_STATUS_OK || base == POMP_SEND_STATUS_ABORTED || (x.type == DGRAM && base == POMP_SEND_STATUS_ERROR), "send report with status %x", status);
	if (W->sends_unreported_ok) while (c->nextrep < c->sends.size() && c->sends[c->nextrep].data != b) c->nextrep++;
	MC_CHECK(c->nextrep < c->sends.size(), "send report although every accepted send of conn %d was reported", c->id);
	SendRec &r = c->sends[c->nextrep];
	MC_CHECK(r.data == b, "send report number %zu of conn %d is for %s instead of %s", c->nextrep, c->id, ref::hexs(b), ref::hexs(r.data));
	if (r.buf) MC_CHECK(r.buf == buf, "send report gives another buffer than the one that was sent");
	if (x.type != DGRAM) {
		if (base == POMP_SEND_STATUS_OK) {
			MC_CHECK(c->s->nwritten >= r.end, "send reported as done, but only %llu of %llu bytes were handed over", (unsigned long long)c->s->nwritten, (unsigned long long)r.end);
			MC_CHECK(!!(status & POMP_SEND_STATUS_QUEUE_EMPTY) == r.qe, "send number %zu of conn %d reported %s queue-empty flag, but the queue %s when it was handed over", c->nextrep, c->id, status & POMP_SEND_STATUS_QUEUE_EMPTY ? "with" : "without", r.qe ? "was empty" : "was not empty");
		} else {
			MC_CHECK(r.data.empty() || c->s->nwritten < r.end, "send reported as aborted, but it was handed over completely");
			MC_CHECK(!c->live || c->shut || c->lossy || x.stopping, "send reported as aborted while the connection goes on");
			MC_CHECK(!!(status & POMP_SEND_STATUS_QUEUE_EMPTY) == (&r == &c->sends.back()), "aborted send %zu of %zu reported %s queue-empty flag", c->nextrep, c->sends.size(), status & POMP_SEND_STATUS_QUEUE_EMPTY ? "with" : "without");
		}
	}
	r.reported = true; c->nextrep++;
	observe(status);
	x.depth++; W->indepth++;
	if (W->on_send) W->on_send(x, *c, buf, status);
	x.depth--; W->indepth--;
}
inline void stopped(Ctx &x, bool gone = false);
inline void sock_cb(struct pomp_ctx *p, int fd, enum pomp_socket_kind kind, void *ud)
{
	Ctx &x = *(Ctx *)ud;
	MC_CHECK(x.p == p, "socket callback with another context");
	MC_CHECK(simk::sock_of(fd), "socket callback with %d, which is no socket", fd);
	if (x.restarting) { x.restarting = false; stopped(x, true); x.running = true; }
	note("    [%d] socket %d created, kind %s", x.id, fd, pomp_socket_kind_str(kind));
	W->sockevs.push_back({&x, fd, (int)kind, now()});
	W->indepth++; x.depth++;
	if (W->on_sock) W->on_sock(x, fd, (int)kind);
	W->indepth--; x.depth--;
}

/* ---- set up ---- */
inline void begin(World &w)
{
	W = &w;
	pomp_internal_set_loop_impl(w.poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	pomp_evt_set_ops(w.poll ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
}
inline void mkloop() { W->loop = pomp_loop_new(); MC_CHECK(W->loop, "pomp_loop_new failed"); }
inline Ctx &mkctx(Type t, bool raw = false, bool sendcb = false, bool sockcb = false, size_t readbuf = 0)
{
	W->ctxs.emplace_back(new Ctx());
	Ctx &x = *W->ctxs.back();
	x.id = (int)W->ctxs.size() - 1; x.type = t; x.raw = raw; x.sendcb = sendcb;
	x.p = pomp_ctx_new_with_loop(ev_cb, &x, W->loop);
	MC_CHECK(x.p, "pomp_ctx_new_with_loop failed");
	if (raw) MC_CHECK(pomp_ctx_set_raw(x.p, raw_cb) == 0, "pomp_ctx_set_raw failed");
	if (sendcb) MC_CHECK(pomp_ctx_set_send_cb(x.p, send_cb) == 0, "pomp_ctx_set_send_cb failed");
	if (sockcb) { x.sockcb = true; MC_CHECK(pomp_ctx_set_socket_cb(x.p, sock_cb) == 0, "pomp_ctx_set_socket_cb failed"); }
	if (readbuf) MC_CHECK(pomp_ctx_set_read_buffer_len(x.p, readbuf) == 0, "pomp_ctx_set_read_buffer_len failed");
	return x;
}
inline int ctx_start(Ctx &x, const Addr &a, unsigned mode = 0)
{
	update_all();
	bool was = x.running && !x.stopping, wasstopping = x.running && x.stopping;
	x.addr = a;
	bool r0 = x.running; x.running = true; if (!was && !wasstopping) x.stopping = false;
	x.restarting = wasstopping;
	int r = x.type == SERVER ? (mode ? pomp_ctx_listen_with_access_mode(x.p, sa(a), a.size(), mode) : pomp_ctx_listen(x.p, sa(a), a.size())) : x.type == CLIENT ? pomp_ctx_connect(x.p, sa(a), a.size()) : pomp_ctx_bind(x.p, sa(a), a.size());
	note("  [%d] %s = %d", x.id, x.type == SERVER ? "listen" : x.type == CLIENT ? "connect" : "bind", r);
	if (was) { MC_CHECK(r == -EBUSY, "starting a running context returned %d", r); return r; }
	if (wasstopping) {
		/* the stop asked for in a callback may or may not have taken place since */
		bool again = x.restarting; x.restarting = false;
		if (r == -EBUSY) return r;
		if (again) stopped(x);
		r0 = false;
	}
	if (r == 0) x.running = true; else x.running = r0;
	MC_CHECK(r == 0 || simk::faults_injected || W->mayfail, "starting a context failed with %d although no call has failed", r);
	return r;
}
inline void stopped(Ctx &x, bool gone)
{
	for (auto &c : x.conns) {
		if (x.type == DGRAM) c->live = false;
		MC_CHECK(!c->live, "the context is stopped but conn %d got no DISCONNECTED event", c->id);
		if (x.sendcb && !W->sends_unreported_ok) MC_CHECK(c->nextrep == c->sends.size(), "the context is stopped but %zu accepted sends of conn %d were never reported", c->sends.size() - c->nextrep, c->id);
	}
	x.running = x.stopping = false;
	if (gone) return;
	if (x.type == SERVER) MC_CHECK(!pomp_ctx_get_next_conn(x.p, nullptr), "a stopped server still lists a connection");
	if (x.type == CLIENT) MC_CHECK(!pomp_ctx_get_conn(x.p), "a stopped client still has a connection");
}
inline int ctx_stop(Ctx &x)
{
	update_all();
	bool was = x.running && !x.stopping;   /* a stop asked for in a callback is still to come */
	x.stopping = x.running;
	int r = pomp_ctx_stop(x.p);
	note("  [%d] stop = %d%s", x.id, r, x.depth ? " (in a callback)" : "");
	if (r < 0 && simk::faults_injected && W->lossy_ok && x.depth && was) { x.stopping = false; return r; }
	MC_CHECK(r == 0, "pomp_ctx_stop returned %d", r);
	if (was && !x.depth) stopped(x);
	return r;
}
inline void check_conns(Ctx &x);
/* called when a processing round is over and nothing is pending */
inline void settled() { for (auto &x : W->ctxs) if (x->p && x->running && x->stopping && !x->depth) stopped(*x); }

inline int process(int timeout = 0)
{
	update_all();
	int r = pomp_loop_wait_and_process(W->loop, timeout);
	update_all();
	MC_CHECK(r == 0 || r == -ETIMEDOUT || r == -EINTR || (simk::faults_injected && W->lossy_ok), "processing the loop returned %d", r);
	return r;
}
/* processes until nothing is pending */
inline void settle(int max = 400)
{
	for (int i = 0; i < max; i++) {
		int r = process(0);
		if (r == -ETIMEDOUT) { settled(); return; }
	}
	fail("the loop is never idle again (%d rounds without end)", max);
}
inline void check_conns(Ctx &x)
{
	/* the list of connections is exactly the connected ones */
	if (x.type == SERVER) {
		std::set<struct pomp_conn *> l;
		for (struct pomp_conn *c = pomp_ctx_get_next_conn(x.p, nullptr); c; c = pomp_ctx_get_next_conn(x.p, c)) {
			MC_CHECK(l.insert(c).second, "connection listed twice");
			MC_CHECK(x.find(c), "the server lists a connection that is not connected");
			MC_CHECK(l.size() < 100, "endless list of connections");
		}
		MC_CHECK(l.size() == x.live().size(), "the server lists %zu connections instead of %zu", l.size(), x.live().size());
	} else if (x.type == CLIENT) {
		struct pomp_conn *c = pomp_ctx_get_conn(x.p);
		MC_CHECK((c ? x.find(c) : nullptr) == x.last() && !c == !x.last(), "the client's connection is not the connected one");
	}
}
inline void ctx_destroy(Ctx &x)
{
	if (!x.p) return;
	if (x.running && x.stopping) {
		/* the stop asked for in a callback may or may not have taken place since */
		int r = pomp_ctx_destroy(x.p);
		note("  [%d] destroy = %d", x.id, r);
		MC_CHECK(r == 0 || r == -EBUSY, "pomp_ctx_destroy returned %d", r);
		if (r == 0) { stopped(x, true); x.p = nullptr; }
		return;
	}
	if (x.running) { int r = pomp_ctx_destroy(x.p); MC_CHECK(r == -EBUSY, "destroying a running context returned %d", r); return; }
	int r = pomp_ctx_destroy(x.p);
	note("  [%d] destroy = %d", x.id, r);
	MC_CHECK(r == 0, "pomp_ctx_destroy returned %d", r);
	x.p = nullptr;
}
inline void finish()
{
	settle();
	for (auto &x : W->ctxs) if (x->p) check_conns(*x);
	for (auto &x : W->ctxs) if (x->p && x->running) { ctx_stop(*x); }
	settle();
	for (auto &x : W->ctxs) ctx_destroy(*x);
	int r = pomp_loop_destroy(W->loop);
	MC_CHECK(r == 0, "pomp_loop_destroy returned %d after everything was stopped", r);
	W->on_event = nullptr; W->on_raw = nullptr; W->on_send = nullptr; W->on_sock = nullptr;
}

/* ---- traffic ---- */
/* a send of the library on a connection; the answer decides what the peer must see */
inline int csend(Conn &c, const Bytes &m, struct pomp_buffer *raw = nullptr, std::function<int()> how = nullptr)
{
	update_all();
	Sock *s = c.s; Sock *peer = s->peer;
	bool islib = peer && peer->lib;
	uint64_t w0 = s->nwritten;
	int r;
	struct pomp_buffer *rb = raw;
	/* the record is made first: another library end may see the bytes during the call */
	c.sends.push_back({m, nullptr, (uint64_t)c.acc.size() + m.size()});
	c.acc += m;
	if (islib) { if (c.x->raw) W->rx[peer].raw += m; else W->rx[peer].msgs.push_back(m); }
	if (how) r = how();
	else if (c.x->raw) {
		if (!rb) { simk::NoFault nf; rb = pomp_buffer_new_with_data(m.data(), m.size()); }
		MC_CHECK(rb, "no buffer");
		c.sends.back().buf = rb;
		r = pomp_conn_send_raw_buf(c.p, rb);
		if (!raw) pomp_buffer_unref(rb);
	} else {
		struct pomp_msg *lm = libmsg(m);
		r = pomp_conn_send_msg(c.p, lm);
		pomp_msg_destroy(lm);
	}
	note("  conn %d.%d send %zu bytes = %d (%llu written)", c.x->id, c.id, m.size(), r, (unsigned long long)(s->nwritten - w0));
	if (r < 0) {
		if (!W->lossy_ok) MC_CHECK(s->nwritten == w0, "a send that failed with %d wrote %llu bytes", r, (unsigned long long)(s->nwritten - w0));
		MC_CHECK(s->nwritten == w0, "a send that failed with %d left %llu bytes on the connection", r, (unsigned long long)(s->nwritten - w0));
		c.acc.resize(c.acc.size() - m.size()); c.sends.pop_back();
		if (islib) { if (c.x->raw) W->rx[peer].raw.resize(W->rx[peer].raw.size() - m.size()); else W->rx[peer].msgs.pop_back(); }
	} else { MC_CHECK(r == 0, "send returned %d", r); }
	update_all();
	observe((uint64_t)r);
	return r;
}
/* a send of a datagram context */
inline int dsend(Ctx &x, const Bytes &m, const Addr &to, bool reply = false)
{
	Conn &c = *dgram_conn(x, nullptr);
	size_t n = simk::dgrams.size();
	c.sends.push_back({m, nullptr, (uint64_t)c.acc.size() + m.size()});
	struct pomp_buffer *b; struct pomp_msg *pm = nullptr;
	{ simk::NoFault nf; b = pomp_buffer_new_with_data(m.data(), m.size()); MC_CHECK(b, "no buffer"); if (!x.raw) { pm = pomp_msg_new_with_buffer(b); MC_CHECK(pm, "no message"); } }
	int r;
	if (x.raw) { c.sends.back().buf = b; r = reply ? pomp_conn_send_raw_buf(c.p, b) : pomp_ctx_send_raw_buf_to(x.p, b, sa(to), to.size()); }
	else { r = reply ? pomp_conn_send_msg(c.p, pm) : pomp_ctx_send_msg_to(x.p, pm, sa(to), to.size()); pomp_msg_destroy(pm); }
	pomp_buffer_unref(b);
	note("  [%d] send of %zu bytes = %d (%zu datagrams)", x.id, m.size(), r, simk::dgrams.size() - n);
	if (r < 0) { c.sends.pop_back(); MC_CHECK(simk::dgrams.size() == n, "a send that failed with %d has sent a datagram", r); }
	else { MC_CHECK(r == 0, "send returned %d", r); MC_CHECK(x.running, "a stopped context accepts a send"); }
	return r;
}
/* the environment sends to the library */
inline void peer_send(Sock *e, const Bytes &m, bool raw = false)
{
	Sock *l = e->peer;
	if (!l) return;
	if (raw) W->rx[l].raw += m; else W->rx[l].msgs.push_back(m);
	size_t n = simk::env_send(e, m.data(), m.size());
	note("  peer sends %zu bytes", n);
	MC_CHECK(n == m.size(), "harness: the peer's socket is full");
}
/* bytes that are cut from their message: expectation and transfer apart */
inline void peer_expect(Sock *e, const Bytes &m, bool raw = false) { if (!e->peer) return; if (raw) W->rx[e->peer].raw += m; else W->rx[e->peer].msgs.push_back(m); }
inline size_t peer_bytes(Sock *e, const Bytes &b) { size_t n = simk::env_send(e, b.data(), b.size()); note("  peer sends %zu bytes", n); return n; }
/* the environment reads what the library has sent on c */
inline void peer_read(Sock *e, const Bytes &acc, size_t max = SIZE_MAX)
{
	Bytes b = simk::env_recv(e, max);
	Bytes &w = W->wire[e];
	w += b;
	if (!b.empty()) note("  peer reads %zu bytes (%zu in all)", b.size(), w.size());
	MC_CHECK(w.size() <= acc.size() && acc.compare(0, w.size(), w) == 0, "bytes on the wire are not the accepted messages: %s, expected %s", ref::hexs(w), ref::hexs(acc));
}
inline Conn *conn_of(Sock *l) { for (auto &x : W->ctxs) for (auto &c : x->conns) if (c->s == l) return c.get(); return nullptr; }

} /* namespace ses */
#endif

/* C10: descriptors passed in messages */
#include "session.h"
using namespace mc; using simk::cfg; using simk::Sock; using simk::Addr; using simk::File;
typedef std::string Bytes;

/* the application's own descriptors */
struct AppFds {
	std::vector<int> fd; std::vector<File *> f;
	AppFds(int n) { for (int i = 0; i < n; i++) { fd.push_back(simk::env_dummy_fd()); f.push_back(simk::env_ref(simk::file_of(fd.back()))); } }
	void intact() { for (size_t i = 0; i < fd.size(); i++) MC_CHECK(simk::file_of(fd[i]) == f[i] && !simk::fd_is_lib(fd[i]), "descriptor %d of the application is no more what it was", fd[i]); }
	void close() { intact(); for (size_t i = 0; i < fd.size(); i++) { simk::env_close_fd(fd[i]); simk::env_unref(f[i]); } }
};
static AppFds *A;
/* arguments: >= 0 a descriptor of the application, -1 a number, -2 a text, -3 a long buffer */
struct Spec { uint32_t id; std::vector<int> args; int nfd() const { int n = 0; for (int a : args) n += a >= 0; return n; } };
static Bytes longbuf(uint32_t id) { Bytes b; for (int i = 0; i < 60; i++) b += (char)(id * 31 + i); return b; }
static struct pomp_msg *build(const Spec &s)
{
	simk::NoFault nf;
	struct pomp_msg *m = pomp_msg_new(); MC_CHECK(m, "no message");
	MC_CHECK(pomp_msg_init(m, s.id) == 0, "pomp_msg_init failed");
	struct pomp_encoder *e = pomp_encoder_new(); MC_CHECK(e && pomp_encoder_init(e, m) == 0, "no encoder");
	for (int a : s.args) {
		int r;
		if (a >= 0) r = pomp_encoder_write_fd(e, A->fd[a]);
		else if (a == -1) r = pomp_encoder_write_u32(e, s.id);
		else if (a == -2) r = pomp_encoder_write_str(e, "text");
		else { Bytes b = longbuf(s.id); r = pomp_encoder_write_buf(e, b.data(), (uint32_t)b.size()); }
		MC_CHECK(r == 0, "writing argument %d returned %d", a, r);
	}
	pomp_encoder_destroy(e);
	MC_CHECK(pomp_msg_finish(m) == 0, "pomp_msg_finish failed");
	return m;
}
/* every argument of a message, descriptors must be new ones for the same file */
static void verify(const struct pomp_msg *m, const Spec &s, std::set<int> *seen = nullptr)
{
	simk::NoFault nf;
	MC_CHECK(pomp_msg_get_id(m) == s.id, "message %u instead of %u", pomp_msg_get_id(m), s.id);
	struct pomp_decoder *d = pomp_decoder_new(); MC_CHECK(d && pomp_decoder_init(d, m) == 0, "no decoder");
	for (int a : s.args) {
		int r; uint32_t u; const char *t; const void *p; uint32_t n; int fd = -77;
		if (a >= 0) {
			r = pomp_decoder_read_fd(d, &fd);
			MC_CHECK(r == 0, "reading a descriptor of message %u returned %d", s.id, r);
			File *f = simk::file_of(fd);
			MC_CHECK(f, "descriptor %d of message %u is not open", fd, s.id);
			MC_CHECK(simk::fd_is_lib(fd), "descriptor %d of message %u is one of the application", fd, s.id);
			MC_CHECK(f == A->f[a], "the descriptor in message %u is for another file", s.id);
			if (seen) MC_CHECK(seen->insert(fd).second, "descriptor %d is in two arguments", fd);
		} else if (a == -1) { r = pomp_decoder_read_u32(d, &u); MC_CHECK(r == 0 && u == s.id, "wrong number in message %u", s.id); }
		else if (a == -2) { r = pomp_decoder_read_cstr(d, &t); MC_CHECK(r == 0 && !strcmp(t, "text"), "wrong text in message %u", s.id); }
		else { r = pomp_decoder_read_cbuf(d, &p, &n); MC_CHECK(r == 0 && Bytes((const char *)p, n) == longbuf(s.id), "wrong buffer in message %u", s.id); }
	}
	pomp_decoder_destroy(d);
}
static const std::vector<std::vector<int>> &shapes()
{
	static std::vector<std::vector<int>> v = {
		{-1},                       /* none */
		{0},                        /* one */
		{-2, 1, 2},                 /* two, after a text */
		{-3, 3},                    /* one, after a long buffer */
		{0, -1, 1, 2, -2, 0},       /* four, the same file twice */
	};
	return v;
}
static struct pomp_loop *L;
static void newloop(bool poll)
{
	pomp_internal_set_loop_impl(poll ? POMP_LOOP_IMPL_POLL : POMP_LOOP_IMPL_EPOLL);
	pomp_internal_set_timer_impl(POMP_TIMER_IMPL_TIMER_FD);
	pomp_evt_set_ops(poll ? &pomp_evt_posix_ops : &pomp_evt_fd_ops);
	L = pomp_loop_new(); MC_CHECK(L, "pomp_loop_new failed");
}
static void round() { int r = pomp_loop_wait_and_process(L, 0); MC_CHECK(r == 0 || r == -ETIMEDOUT || r == -EINTR || simk::faults_injected, "processing returned %d", r); }
static bool settle(int max = 300) { for (int i = 0; i < max; i++) { int r = pomp_loop_wait_and_process(L, 0); if (r == -ETIMEDOUT) return true; } fail("the loop is never idle again"); }

/* one end */
struct End {
	struct pomp_ctx *ctx = nullptr; struct pomp_conn *conn = nullptr;
	std::deque<Spec> due;              /* must arrive */
	int got = 0, ncon = 0; bool strict = true;
	std::vector<std::pair<struct pomp_msg *, Spec>> kept;
	bool keep = false;
	std::function<void(End &, const struct pomp_msg *)> on_msg;
	void drop() { for (auto &k : kept) { verify(k.first, k.second); pomp_msg_destroy(k.first); } kept.clear(); }
};
static void cb(struct pomp_ctx *c, enum pomp_event ev, struct pomp_conn *conn, const struct pomp_msg *m, void *ud)
{
	End &e = *(End *)ud;
	if (ev == POMP_EVENT_CONNECTED) { e.conn = conn; e.ncon++; note("    connected"); return; }
	if (ev == POMP_EVENT_DISCONNECTED) { e.conn = nullptr; note("    disconnected"); return; }
	e.got++;
	note("    message %u, %zu bytes", pomp_msg_get_id(m), wire::msg_bytes(m).size());
	if (e.on_msg) { e.on_msg(e, m); return; }
	MC_CHECK(!e.due.empty(), "message %u was not sent", pomp_msg_get_id(m));
	Spec s = e.due.front(); e.due.pop_front();
	std::set<int> seen;
	for (auto &k : e.kept) (void)k;
	verify(m, s, &seen);
	if (e.keep) { struct pomp_msg *c2 = pomp_msg_new_copy(m); MC_CHECK(c2, "pomp_msg_new_copy failed"); verify(c2, s, &seen); e.kept.push_back({c2, s}); }
}

/* a stream of messages between two ends of the library */
static void pair_(bool shortrun)
{
	newloop(pick(2, "loop implementation"));
	AppFds app(4); A = &app;
	End s, c; Addr a = simk::un("@fd");
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L); c.ctx = pomp_ctx_new_with_loop(cb, &c, L);
	MC_CHECK(s.ctx && c.ctx, "no context");
	int rb = pick(3, "read buffer");
	if (rb) { pomp_ctx_set_read_buffer_len(s.ctx, rb == 1 ? 33 : 64); }
	MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0 && pomp_ctx_connect(c.ctx, ses::sa(a), a.size()) == 0, "no connection");
	settle();
	MC_CHECK(s.conn && c.conn, "not connected");
	int fds0 = simk::open_lib_fds();
	/* a small socket makes the sender queue */
	Sock *cs = simk::sock_of(pomp_conn_get_fd(c.conn)), *ss = simk::sock_of(pomp_conn_get_fd(s.conn));
	if (pick(2, "small socket")) { cs->cap = ss->cap = 50; }
	cfg.partial = cfg.eagain = cfg.order = true;
	s.keep = pick(2, "kept");
	int n = shortrun ? 2 : 3;
	bool between = pick(2, "processed in between");
	for (int i = 0; i < n; i++) {
		Spec sp{(uint32_t)(10 + i), shapes()[pick((int)shapes().size(), "shape")]};
		struct pomp_msg *m = build(sp);
		s.due.push_back(sp);
		int r = pomp_conn_send_msg(c.conn, m);
		note("  send message %u with %d descriptors = %d", sp.id, sp.nfd(), r);
		MC_CHECK(r == 0, "pomp_conn_send_msg returned %d", r);
		pomp_msg_destroy(m);
		if (between) round();
	}
	/* the other way too */
	{ Spec sp{99, {2}}; struct pomp_msg *m = build(sp); c.due.push_back(sp); MC_CHECK(pomp_conn_send_msg(s.conn, m) == 0, "pomp_conn_send_msg failed"); pomp_msg_destroy(m); }
	settle();
	MC_CHECK(s.due.empty() && c.due.empty(), "%zu messages did not arrive", s.due.size() + c.due.size());
	int held = 0; for (auto &k : s.kept) held += k.second.nfd();
	MC_CHECK(simk::open_lib_fds() == fds0 + held, "the library holds %d descriptors, %d in kept messages:%s", simk::open_lib_fds() - fds0, held, simk::describe_lib_fds().c_str());
	app.intact();
	s.drop();
	MC_CHECK(simk::open_lib_fds() == fds0, "%d descriptors have leaked:%s", simk::open_lib_fds() - fds0, simk::describe_lib_fds().c_str());
	pomp_ctx_stop(c.ctx); settle(); pomp_ctx_stop(s.ctx); settle();
	pomp_ctx_destroy(c.ctx); pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	MC_CHECK(simk::open_lib_fds() == 0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	app.close();
	outcome(s.got);
}
static void d_pair2() { pair_(true); }
static void d_pair3() { pair_(false); }

/* the connection ends at any point */
static void d_loss()
{
	newloop(pick(2, "loop implementation"));
	AppFds app(4); A = &app;
	End s, c; Addr a = simk::un("@fd");
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L); c.ctx = pomp_ctx_new_with_loop(cb, &c, L);
	MC_CHECK(s.ctx && c.ctx, "no context");
	pomp_ctx_set_read_buffer_len(s.ctx, 33);
	MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0 && pomp_ctx_connect(c.ctx, ses::sa(a), a.size()) == 0, "no connection");
	settle();
	Sock *cs = simk::sock_of(pomp_conn_get_fd(c.conn)), *ss = simk::sock_of(pomp_conn_get_fd(s.conn));
	int cap = pick(3, "capacity"); static const int CAP[] = {20, 50, 4096};
	cs->cap = ss->cap = CAP[cap];
	cfg.partial = cfg.eagain = true;
	s.keep = pick(2, "kept");
	int n = 3, at = pick(8, "end at"), how = pick(5, "end by"), step = 0;
	bool ended = false;
	auto end = [&] {
		if (ended || step++ != at) return;
		ended = true;
		note("  the connection ends (%d)", how);
		switch (how) {
		case 0: pomp_ctx_stop(c.ctx); break;
		case 1: pomp_ctx_stop(s.ctx); break;
		case 2: if (c.conn) pomp_conn_disconnect(c.conn); break;
		case 3: if (s.conn) pomp_conn_disconnect(s.conn); break;
		case 4: cs->rst = ss->rst = cs->hup = ss->hup = true; break;   /* as on a network failure */
		}
	};
	static const int PAT[][3] = {{2, 4, 3}, {4, 0, 4}, {3, 3, 1}};
	int pat = pick(3, "pattern");
	for (int i = 0; i < n; i++) {
		end();
		if (!c.conn) break;
		Spec sp{(uint32_t)(10 + i), shapes()[PAT[pat][i]]};
		struct pomp_msg *m = build(sp);
		int r = pomp_conn_send_msg(c.conn, m);
		note("  send message %u = %d", sp.id, r);
		if (r == 0) s.due.push_back(sp);
		pomp_msg_destroy(m);
		end();
		round();
	}
	end(); round(); end(); round();
	cfg.partial = cfg.eagain = false;
	pomp_ctx_stop(c.ctx); pomp_ctx_stop(s.ctx); settle();
	app.intact();
	int held = 0; for (auto &k : s.kept) held += k.second.nfd();
	s.drop();
	pomp_ctx_destroy(c.ctx); pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	MC_CHECK(simk::open_lib_fds() == 0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	app.close();
	outcome(s.got * 8 + held);
}

/* what a hostile or confused peer may send */
static Bytes claim(uint32_t id, int nfds, bool tail = true)
{
	std::vector<ref::Val> v;
	v.push_back(ref::vu(ref::U32, id));
	for (int i = 0; i < nfds; i++) { ref::Val x = ref::vi(ref::FD, 3 + i); v.push_back(x); }
	if (tail) v.push_back(ref::vs("end"));
	return ref::message(id, v);
}
/* whatever is presented is a descriptor that came from the peer, and open */
static std::set<File *> FROMPEER;
static std::set<int> inspect(const struct pomp_msg *m, int claimed)
{
	std::set<int> fds;
	struct pomp_decoder *d = pomp_decoder_new(); MC_CHECK(d && pomp_decoder_init(d, m) == 0, "no decoder");
	uint32_t u; MC_CHECK(pomp_decoder_read_u32(d, &u) == 0, "first argument is missing");
	for (int i = 0; i < claimed; i++) {
		int fd = -77, r = pomp_decoder_read_fd(d, &fd);
		if (r < 0) { MC_CHECK(fd == -77 || fd == -1, "a failed read has set the descriptor to %d", fd); break; }
		MC_CHECK(fd >= 0, "descriptor %d was read", fd);
		File *f = simk::file_of(fd);
		MC_CHECK(f && simk::fd_is_lib(fd), "descriptor %d is presented, but it is not one that was received", fd);
		MC_CHECK(FROMPEER.count(f), "descriptor %d is presented, but the peer never sent it", fd);
		MC_CHECK(fds.insert(fd).second, "descriptor %d is presented twice", fd);
	}
	pomp_decoder_destroy(d);
	char txt[512]; pomp_msg_dump(m, txt, sizeof(txt));
	return fds;
}
static void d_hostile_(int n)
{
	newloop(pick(2, "loop implementation"));
	bool inet = pick(2, "inet"), raw = !inet && pick(2, "raw");
	AppFds app(1); A = &app; FROMPEER.clear();
	End s; Addr a = inet ? simk::in4(INADDR_LOOPBACK, 5000) : simk::un("@fd");
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L); MC_CHECK(s.ctx, "no context");
	if (raw) pomp_ctx_set_raw(s.ctx, [](struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *, void *ud) { ((End *)ud)->got++; });
	if (pick(2, "small reads")) pomp_ctx_set_read_buffer_len(s.ctx, 17);
	MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0, "cannot listen");
	Sock *e = simk::env_connect(a); MC_CHECK(e, "refused");
	settle();
	MC_CHECK(s.conn, "not connected");
	int fds0 = simk::open_lib_fds();
	std::map<uint32_t, int> claims;
	struct pomp_msg *copy = nullptr; int copied = 0; bool docopy = pick(2, "kept");
	s.on_msg = [&](End &, const struct pomp_msg *m) {
		uint32_t id = pomp_msg_get_id(m);
		MC_CHECK(claims.count(id), "message %u was never sent", id);
		auto f = inspect(m, claims[id]);
		if (inet) MC_CHECK(f.empty(), "descriptors on a connection that cannot carry them");
		if (docopy && !copy) { copy = pomp_msg_new_copy(m);
			/* what lacks a descriptor it claims cannot be copied */
			MC_CHECK(copy || (int)f.size() < claims[id], "pomp_msg_new_copy failed");
			if (!copy) return;
			copied = claims[id]; auto g = inspect(copy, copied); MC_CHECK(g.size() == f.size(), "the copy has %zu descriptors instead of %zu", g.size(), f.size()); for (int x : g) MC_CHECK(!f.count(x), "the copy shares descriptor %d", x); }
	};
	auto files = [&](int n) { std::vector<File *> v; for (int i = 0; i < n; i++) { int fd = simk::env_dummy_fd(); File *f = simk::env_ref(simk::file_of(fd)); simk::env_close_fd(fd); v.push_back(f); FROMPEER.insert(f); } return v; };
	for (int i = 0; i < n; i++) {
		uint32_t id = 20 + i;
		int what = pick(8, "sends"), nf = inet ? 0 : pick(4, "descriptors");
		static const int NF[] = {0, 1, 4, 6};
		auto v = files(NF[nf]);
		Bytes b;
		switch (what) {
		case 0: b = claim(id, 1); claims[id] = 1; break;
		case 1: b = claim(id, 4); claims[id] = 4; break;
		case 2: b = claim(id, 6); claims[id] = 6; break;
		case 3: b = claim(id, 0); claims[id] = 0; break;
		case 4: b = "x"; break;
		case 5: b = claim(id, 2).substr(0, 15); claims[id] = 2; break;                      /* never ends */
		case 6: b = claim(id, 1) + claim(id, 2); claims[id] = 2; break;                    /* two in one */
		case 7: b = claim(id, 2); b[b.size() - 5] = 0x7f; claims[id] = 2; break;           /* malformed after the descriptors */
		}
		if (simk::env_send(e, b.data(), b.size(), v) != b.size()) fail("harness: socket full");
		note("  peer sends kind %d with %d descriptors", what, NF[nf]);
		for (File *f : v) (void)f;
		if (pick(2, "processed")) { settle(); if (!s.conn) break; }
	}
	settle();
	/* bounded: what waits for its message is in two tables */
	MC_CHECK(simk::open_lib_fds() - fds0 <= 8 + (copy ? copied : 0), "the library keeps %d received descriptors", simk::open_lib_fds() - fds0);
	if (copy) { inspect(copy, copied); pomp_msg_destroy(copy); copy = nullptr; }
	if (pick(2, "peer closes")) { simk::env_close(e); settle(); pomp_ctx_stop(s.ctx); } else { pomp_ctx_stop(s.ctx); simk::env_close(e); }
	settle();
	pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	MC_CHECK(simk::open_lib_fds() == 0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	for (File *f : FROMPEER) { MC_CHECK(f->refs == 1, "a received file has still %d references", f->refs - 1); simk::env_unref(f); }
	app.close();
	outcome(s.got);
}

/* transports that carry no descriptors */
static void d_nocarry()
{
	newloop(pick(2, "loop implementation"));
	AppFds app(4); A = &app;
	int kind = pick(3, "kind");          /* tcp, udp, udp6 */
	End s; Addr a = kind == 2 ? simk::in6(5000) : simk::in4(INADDR_LOOPBACK, 5000), b = kind == 2 ? simk::in6(6000) : simk::in4(INADDR_LOOPBACK, 6000);
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L);
	Sock *e = nullptr;
	if (kind == 0) { MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0, "cannot listen"); e = simk::env_connect(a); settle(); MC_CHECK(s.conn, "not connected"); }
	else MC_CHECK(pomp_ctx_bind(s.ctx, ses::sa(a), a.size()) == 0, "cannot bind");
	int fds0 = simk::open_lib_fds();
	for (int i = 0; i < 3; i++) {
		Spec sp{(uint32_t)(10 + i), shapes()[pick((int)shapes().size(), "shape")]};
		struct pomp_msg *m = build(sp);
		size_t nd = simk::dgrams.size(); uint64_t nw = kind == 0 ? e->rxbytes : 0;
		int way = pick(2, "way");
		int r = kind ? pomp_ctx_send_msg_to(s.ctx, m, ses::sa(b), b.size()) : way ? pomp_ctx_send_msg(s.ctx, m) : pomp_conn_send_msg(s.conn, m);
		note("  send with %d descriptors = %d", sp.nfd(), r);
		if (sp.nfd()) { if (kind || !way) MC_CHECK(r < 0, "a message with descriptors was accepted (%d)", r); MC_CHECK(simk::dgrams.size() == nd && (!e || e->rxbytes == nw), "something of it was sent"); verify(m, sp); }
		else MC_CHECK(r == 0 && (kind ? simk::dgrams.size() == nd + 1 : e->rxbytes > nw), "a message without descriptors was not sent (%d)", r);
		pomp_msg_destroy(m);
		MC_CHECK(simk::open_lib_fds() == fds0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	}
	/* and received claims */
	FROMPEER.clear(); int got = 0;
	s.on_msg = [&](End &, const struct pomp_msg *m) { got++; auto f = inspect(m, 2); MC_CHECK(f.empty(), "descriptors on a connection that cannot carry them"); };
	Bytes cl = claim(77, 2);
	if (kind == 0) simk::env_send(e, cl.data(), cl.size()); else simk::env_dgram(b, a, cl.data(), cl.size());
	settle();
	MC_CHECK(simk::open_lib_fds() == fds0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	pomp_ctx_stop(s.ctx); if (e) simk::env_close(e);
	settle(); pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	app.close();
	outcome(got);
}

/* the peer of the environment reads the stream with any pieces */
static void d_wire()
{
	newloop(pick(2, "loop implementation"));
	AppFds app(4); A = &app;
	End s; Addr a = simk::un("@fd");
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L);
	MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0, "cannot listen");
	Sock *e = simk::env_connect(a); settle(); MC_CHECK(s.conn, "not connected");
	Sock *ls = e->peer;
	int fds0 = simk::open_lib_fds();
	static const int CAP[] = {4096, 20, 50};
	e->cap = ls->cap = CAP[pick(3, "capacity")];
	cfg.partial = cfg.eagain = true;
	std::vector<Spec> sent; Bytes whole; std::vector<size_t> start; std::vector<std::vector<File *>> want;
	Bytes got; std::vector<std::pair<size_t, std::vector<File *>>> gotfds;
	auto readall = [&](size_t max) { for (;;) { std::vector<File *> f; size_t at = got.size(); Bytes b = simk::env_recv(e, max, &f); if (b.empty()) break; got += b; if (!f.empty()) { gotfds.push_back({at, f}); } } };
	int n = 3; bool dup = pick(2, "same message again");
	std::vector<struct pomp_msg *> ms;
	for (int i = 0; i < n; i++) {
		Spec sp{(uint32_t)(10 + i), shapes()[pick((int)shapes().size(), "shape")]};
		struct pomp_msg *m = build(sp);
		Bytes b = wire::msg_bytes(m);
		for (int k = 0; k < (dup && i == 0 ? 2 : 1); k++) {
			int r = pick(2, "broadcast") ? pomp_ctx_send_msg(s.ctx, m) : pomp_conn_send_msg(s.conn, m);
			MC_CHECK(r == 0, "send returned %d", r);
			start.push_back(whole.size()); std::vector<File *> f; for (int x : sp.args) if (x >= 0) f.push_back(app.f[x]); want.push_back(f);
			whole += b;
		}
		pomp_msg_destroy(m);
		if (i == 1) { readall(pick(2, "pieces") ? 7 : 1000); round(); }
	}
	for (int k = 0; k < 60 && got.size() < whole.size(); k++) { readall(1000); round(); }
	readall(1000);
	MC_CHECK(got == whole, "the peer has read %zu bytes instead of %zu, or others", got.size(), whole.size());
	/* the descriptors of each message come once, in order, within its bytes */
	size_t j = 0;
	for (size_t i = 0; i < want.size(); i++) {
		if (want[i].empty()) continue;
		MC_CHECK(j < gotfds.size(), "the descriptors of message %zu never came", i);
		size_t end = i + 1 < start.size() ? start[i + 1] : whole.size();
		MC_CHECK(gotfds[j].first < end, "the descriptors of message %zu came late", i);
		/* several may come in one call of the harness */
		auto &f = gotfds[j].second;
		MC_CHECK(f.size() >= want[i].size() && std::equal(want[i].begin(), want[i].end(), f.begin()), "other descriptors came with message %zu", i);
		for (size_t k = 0; k < want[i].size(); k++) simk::env_unref(f[k]);
		f.erase(f.begin(), f.begin() + want[i].size());
		if (f.empty()) j++;
	}
	MC_CHECK(j == gotfds.size(), "more descriptors came than were sent");
	cfg.partial = cfg.eagain = false;
	settle();
	MC_CHECK(simk::open_lib_fds() == fds0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	simk::env_close(e); settle();
	pomp_ctx_stop(s.ctx); settle(); pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	app.close();
	outcome(whole.size());
}

/* life of messages with descriptors, without any connection */
static void d_ops_(bool faults)
{
	AppFds app(2); A = &app;
	if (faults) { cfg.faults = simk::F_MALLOC | simk::F_DUP; cfg.maxfaults = 2; }
	struct Slot { struct pomp_msg *m = nullptr; struct pomp_encoder *e = nullptr; Spec s; bool init = false, fin = false, bad = false; } S[2];
	auto nofault = [] { return cfg.faults == 0; };
	auto held = [&] { int n = 0; for (auto &x : S) n += x.s.nfd(); return n; };
	auto okay = [&](int r, int f0) { MC_CHECK(r == 0 || simk::faults_injected > f0, "returned %d although nothing failed", r); return r == 0; };
	for (auto &x : S) { simk::NoFault nf; x.m = pomp_msg_new(); x.e = pomp_encoder_new(); MC_CHECK(x.m && x.e, "no memory"); x.s.id = 0; }
	int depth = faults ? (thorough() ? 7 : 6) : thorough() ? 8 : 7;
	for (int i = 0; i < depth; i++) {
		int k = pick(2, "message"); Slot &x = S[k], &y = S[1 - k];
		int f0 = simk::faults_injected;
		switch (pick(8, "operation")) {
		case 0: if (x.init) prune(); { int r = pomp_msg_init(x.m, 5 + k); if (okay(r, f0)) { x.init = true; x.s.id = 5 + k; x.s.args.clear(); MC_CHECK(pomp_encoder_init(x.e, x.m) == 0, "pomp_encoder_init failed"); } else { MC_CHECK(pomp_msg_clear(x.m) == 0, "pomp_msg_clear failed"); } break; }
		case 1: case 2: {
			if (!x.init || x.fin || x.bad) prune();
			int which = (int)x.s.args.size() % 2;
			int full = x.s.nfd() >= 4;
			int r = pomp_encoder_write_fd(x.e, app.fd[which]);
			note("  write_fd = %d", r);
			if (full) { MC_CHECK(r < 0, "a fifth descriptor was accepted"); x.bad = true; break; }
			if (okay(r, f0)) x.s.args.push_back(which); else x.bad = true;
			break; }
		case 3: if (!x.init || x.fin || x.bad) prune(); { int r = pomp_encoder_write_u32(x.e, x.s.id); if (okay(r, f0)) x.s.args.push_back(-1); else x.bad = true; break; }
		case 4: if (!x.init || x.fin || x.bad) prune(); { int r = pomp_msg_finish(x.m); if (okay(r, f0)) { x.fin = true; verify(x.m, x.s); } else x.bad = true; break; }
		case 5: { int r = pomp_msg_clear(x.m); MC_CHECK(r == 0, "pomp_msg_clear returned %d", r); x.init = x.fin = x.bad = false; x.s.args.clear(); pomp_encoder_clear(x.e); break; }
		case 6: if (!x.fin) prune(); { /* the other becomes a copy */
			pomp_msg_destroy(y.m); pomp_encoder_clear(y.e); y.init = y.fin = y.bad = false; y.s.args.clear();
			y.m = pomp_msg_new_copy(x.m);
			if (okay(y.m ? 0 : -1, f0)) { y.init = y.fin = true; y.s = x.s; std::set<int> seen; verify(x.m, x.s, &seen); verify(y.m, y.s, &seen); }
			else { simk::NoFault nf; y.m = pomp_msg_new(); }
			break; }
		case 7: { /* refused: it is not a descriptor */
			if (!x.init || x.fin || x.bad) prune();
			int r = pomp_encoder_write_fd(x.e, pick(2, "which") ? -1 : 900);
			MC_CHECK(r < 0, "a descriptor that is not open was accepted"); x.bad = true; break; }
		}
		MC_CHECK(simk::open_lib_fds() == held(), "the messages hold %d descriptors instead of %d:%s", simk::open_lib_fds(), held(), simk::describe_lib_fds().c_str());
		app.intact();
	}
	(void)nofault;
	for (auto &x : S) { if (x.fin) verify(x.m, x.s); pomp_msg_destroy(x.m); pomp_encoder_destroy(x.e); }
	MC_CHECK(simk::open_lib_fds() == 0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	app.close();
}
static void d_ops() { d_ops_(false); }
static void d_ops_faults() { d_ops_(true); }

/* failures while descriptors are on their way: whatever is delivered is right or refused, nothing leaks */
static void d_faults()
{
	newloop(pick(2, "loop implementation"));
	AppFds app(4); A = &app;
	End s, c; Addr a = simk::un("@fd");
	s.ctx = pomp_ctx_new_with_loop(cb, &s, L); c.ctx = pomp_ctx_new_with_loop(cb, &c, L);
	if (pick(2, "small reads")) pomp_ctx_set_read_buffer_len(s.ctx, 33);
	MC_CHECK(pomp_ctx_listen(s.ctx, ses::sa(a), a.size()) == 0 && pomp_ctx_connect(c.ctx, ses::sa(a), a.size()) == 0, "no connection");
	settle();
	Sock *cs = simk::sock_of(pomp_conn_get_fd(c.conn)), *ss = simk::sock_of(pomp_conn_get_fd(s.conn));
	if (pick(2, "small socket")) cs->cap = ss->cap = 50;
	FROMPEER.clear(); for (File *f : app.f) FROMPEER.insert(f);
	s.on_msg = [&](End &, const struct pomp_msg *m) {
		simk::NoFault nf;
		/* every descriptor in it is open and was sent */
		struct pomp_decoder *d = pomp_decoder_new(); pomp_decoder_init(d, m);
		const Spec *sp = nullptr; static Spec all[3];
		for (int i = 0; i < 3; i++) { all[i] = {(uint32_t)(10 + i), shapes()[4 - i]}; if (all[i].id == pomp_msg_get_id(m)) sp = &all[i]; }
		MC_CHECK(sp, "unknown message");
		for (int x : sp->args) {
			if (x == -1) { uint32_t u; MC_CHECK(pomp_decoder_read_u32(d, &u) == 0, "wrong"); }
			else if (x == -2) { const char *t; MC_CHECK(pomp_decoder_read_cstr(d, &t) == 0, "wrong"); }
			else if (x == -3) { const void *p; uint32_t n; MC_CHECK(pomp_decoder_read_cbuf(d, &p, &n) == 0, "wrong"); }
			else { int fd = -77; int r = pomp_decoder_read_fd(d, &fd); if (r < 0) break; File *f = simk::file_of(fd); MC_CHECK(f && simk::fd_is_lib(fd) && FROMPEER.count(f), "descriptor %d is presented, but it was not received", fd); }
		}
		pomp_decoder_destroy(d);
	};
	cfg.faults = simk::F_MALLOC | simk::F_DUP | simk::F_READ | simk::F_WRITE; cfg.maxfaults = 2;
	for (int i = 0; i < 3 && c.conn; i++) {
		Spec sp{(uint32_t)(10 + i), shapes()[4 - i]};
		struct pomp_msg *m = build(sp);
		int r = pomp_conn_send_msg(c.conn, m);
		MC_CHECK(r == 0 || simk::faults_injected, "send returned %d", r);
		pomp_msg_destroy(m);
		if (i == 0) round();
	}
	for (int i = 0; i < 20; i++) round();
	cfg.faults = 0;
	pomp_ctx_stop(c.ctx); pomp_ctx_stop(s.ctx); settle();
	pomp_ctx_destroy(c.ctx); pomp_ctx_destroy(s.ctx);
	MC_CHECK(pomp_loop_destroy(L) == 0, "pomp_loop_destroy failed");
	MC_CHECK(simk::open_lib_fds() == 0, "descriptors have leaked:%s", simk::describe_lib_fds().c_str());
	app.close();
	outcome(s.got);
}
static void d_hostile() { d_hostile_(thorough() ? 3 : 2); }
static Reg r([] {
	static auto zero = [](int n, void (*fn)()) { cfg.zero = 1 + pick(n, "descriptor that gets the number 0"); fn(); };
	add("C10", "zero-pair", [] { zero(16, d_pair2); });
	add("C10", "zero-hostile", [] { zero(16, [] { d_hostile_(thorough() ? 2 : 1); }); });
	add("C10", "zero-faults", [] { zero(16, d_faults); }, 1, 2);
	add("C10", "pair2", d_pair2, 2, 3);
	add("C10", "pair3", d_pair3, 1, 2);
	add("C10", "loss", d_loss, 1, 2);
	add("C10", "hostile", d_hostile);
	add("C10", "nocarry", d_nocarry);
	add("C10", "wire", d_wire, 1, 2);
	add("C10", "ops", d_ops);
	add("C10", "ops-faults", d_ops_faults, 2, 2);
	add("C10", "faults", d_faults, 2, 2);
});

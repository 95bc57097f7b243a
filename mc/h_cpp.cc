/* C24: the C++ interface.  Every sequence of operations is run twice, through
 * the C functions and through the C++ classes, and what happened is compared;
 * messages are compared with the reference of the wire format. */
#include "cppif.h"
void c24_rows1(int), c24_rows2(int), c24_rows3(int), c24_rows4(int);
namespace {
/* longer formats, formatted writes and reads, and the named functions of the encoder */
void c24_formats()
{
	Pipe p; P = &p;
	int i = pick(4, "values");
	auto at = [&](auto l) { return l[i % l.size()]; };
	int8_t i8 = at(A<ArgI8>::vals()); uint8_t u8 = at(A<ArgU8>::vals()); int16_t i16 = at(A<ArgI16>::vals()); uint16_t u16 = at(A<ArgU16>::vals());
	int32_t i32 = at(A<ArgI32>::vals()); uint32_t u32 = at(A<ArgU32>::vals()); int64_t i64 = at(A<ArgI64>::vals()); uint64_t u64 = at(A<ArgU64>::vals());
	std::string s = at(A<ArgStr>::vals()); std::vector<uint8_t> v = at(A<ArgBuf>::vals()); float f = at(A<ArgF32>::vals()); double d = at(A<ArgF64>::vals());
	typedef MessageFormat<0xfffffffeu, ArgI8, ArgU8, ArgI16, ArgU16, ArgI32, ArgU32, ArgI64, ArgU64, ArgStr, ArgBuf, ArgF32, ArgF64> All;
	typedef MessageFormat<0> None;
	uint32_t id = 0xfffffffeu;
	Bytes want = ref::message(id, {ref::vi(ref::I8, i8), ref::vu(ref::U8, u8), ref::vi(ref::I16, i16), ref::vu(ref::U16, u16), ref::vi(ref::I32, i32), ref::vu(ref::U32, u32), ref::vi(ref::I64, i64), ref::vu(ref::U64, u64), ref::vs(s), ref::vb(Bytes(v.begin(), v.end())), ref::vf(f), ref::vd(d)});
	static const char *FMT = "%hhd%hhu%hd%hu%d%u%lld%llu%s%p%u%f%lf", *RFMT = "%hhd%hhu%hd%hu%d%u%lld%llu%ms%p%u%f%lf";
	Message m; int r; Bytes b;
	switch (pick(5, "way of writing")) {
	case 0: r = m.write<All>(i8, u8, i16, u16, i32, u32, i64, u64, s, v, f, d); break;
	case 1: r = m.write(7, "%s", "old"); MC_CHECK(r == 0, "write returned %d", r); r = m.write(id, FMT, i8, u8, i16, u16, i32, u32, (long long)i64, (unsigned long long)u64, s.c_str(), v.empty() ? (const void *)"" : (const void *)v.data(), (unsigned)v.size(), f, d); break;
	case 2: { r = m.write<MessageFormat<7, ArgStr, ArgU64>>(std::string("old"), 5); MC_CHECK(r == 0, "write returned %d", r);
		auto w = [&](const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = m.writev(id, fmt, ap); va_end(ap); return r; };
		r = w(FMT, i8, u8, i16, u16, i32, u32, (long long)i64, (unsigned long long)u64, s.c_str(), v.empty() ? (const void *)"" : (const void *)v.data(), (unsigned)v.size(), f, d); break; }
	case 3: { /* a message that holds something already, also from a failed write */
		r = m.write<MessageFormat<7, ArgStr, ArgU64>>(std::string("old"), 5); MC_CHECK(r == 0, "write returned %d", r);
		r = m.write(8, "%u%Q", 3u); MC_CHECK(r < 0, "writing with a bad format returned %d", r);
		r = m.write<All>(i8, u8, i16, u16, i32, u32, i64, u64, s, v, f, d); break; }
	default: { Encoder e(id);
		int k = 0;
		r = (k = e.writeI8(i8)) | (k = e.writeU8(u8)) | e.writeI16(i16) | e.writeU16(u16) | e.writeI32(i32) | e.writeU32(u32) | e.writeI64(i64) | e.writeU64(u64) | e.write(s.c_str()) | e.write(v) | e.writeF32(f) | e.writeF64(d);
		MC_CHECK(r == 0, "encoding returned %d", r);
		b = P->bytes(e.getMessage());
		MC_CHECK(b == want, "the encoder writes %s instead of %s", ref::hexs(b), ref::hexs(want));
		r = m.write<All>(i8, u8, i16, u16, i32, u32, i64, u64, s, v, f, d); break; }
	}
	MC_CHECK(r == 0, "writing returned %d", r);
	b = P->bytes(m);
	MC_CHECK(b == want, "the message is %s instead of %s", ref::hexs(b), ref::hexs(want));
	auto reads = [&](const Message &x) {
		int8_t a1 = 1; uint8_t a2 = 1; int16_t a3 = 1; uint16_t a4 = 1; int32_t a5 = 1; uint32_t a6 = 1; int64_t a7 = 1; uint64_t a8 = 1; std::string a9 = "old"; std::vector<uint8_t> a10(4, 4); float a11 = 1; double a12 = 1;
		int r = x.read<All>(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12);
		MC_CHECK(r == 0, "reading returned %d", r);
		MC_CHECK(a1 == i8 && a2 == u8 && a3 == i16 && a4 == u16 && a5 == i32 && a6 == u32 && a7 == i64 && a8 == u64 && a9 == s && a10 == v && same(a11, f) && same(a12, d), "other values read from %s", ref::hexs(want));
		a1 = 1; a2 = 1; a3 = 1; a4 = 1; a5 = 1; a6 = 1; a7 = 1; a8 = 1; a11 = 1; a12 = 1; char *cs = nullptr; const void *cp = nullptr; uint32_t cn = 5;
		long long ll = 1; unsigned long long ull = 1;
		if (pick(2, "way of reading")) r = x.read(RFMT, &a1, &a2, &a3, &a4, &a5, &a6, &ll, &ull, &cs, &cp, &cn, &a11, &a12);
		else { auto rd = [&](const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = x.readv(fmt, ap); va_end(ap); return r; }; r = rd(RFMT, &a1, &a2, &a3, &a4, &a5, &a6, &ll, &ull, &cs, &cp, &cn, &a11, &a12); }
		MC_CHECK(r == 0, "reading with a format returned %d", r);
		MC_CHECK(a1 == i8 && a2 == u8 && a3 == i16 && a4 == u16 && a5 == i32 && a6 == u32 && ll == i64 && ull == u64 && s == cs && Bytes((const char *)cp, cn) == Bytes(v.begin(), v.end()) && same(a11, f) && same(a12, d), "other values read from %s", ref::hexs(want));
		simk::lib_free(cs);
		unsigned q; r = x.read("%u", &q); MC_CHECK(r < 0, "reading with a wrong format returned %d", r);
	};
	reads(m);
	P->give(want, reads);
	/* without arguments */
	Message n; r = n.write<None>(); MC_CHECK(r == 0, "writing returned %d", r);
	b = P->bytes(n); MC_CHECK(b == ref::message(0, {}), "an empty message is %s", ref::hexs(b));
	r = n.read<None>(); MC_CHECK(r == 0, "reading returned %d", r);
	r = n.read<All>(i8, u8, i16, u16, i32, u32, i64, u64, s, v, f, d); MC_CHECK(r == -EINVAL, "reading with another id returned %d", r);
	r = n.write(5, nullptr); MC_CHECK(r == 0, "writing returned %d", r);
	b = P->bytes(n); MC_CHECK(b == ref::message(5, {}), "an empty message is %s", ref::hexs(b));
	r = n.read(nullptr); MC_CHECK(r == 0, "reading returned %d", r);
	{ Encoder e(9); b = P->bytes(e.getMessage()); MC_CHECK(b == ref::message(9, {}), "an empty message is %s", ref::hexs(b)); }
	/* what is too long is refused as a whole */
	std::string big(65536, 'x'), fits(65534, 'z');
	size_t nd = simk::dgrams.size();
	r = m.write<MessageFormat<1, ArgU8, ArgStr>>(3, big); int c; { struct pomp_msg *cm = pomp_msg_new(); c = pomp_msg_write(cm, 1, "%hhu%s", 3, big.c_str()); pomp_msg_destroy(cm); }
	MC_CHECK(r == c && r < 0, "writing a string that is too long returned %d instead of %d", r, c);
	{ Addr to = addr_of(AF_INET, 1); r = P->ctx->sendMsgTo(m, sa(to), to.size()); MC_CHECK(r < 0 && simk::dgrams.size() == nd, "a message whose writing failed is sent (%d)", r); }
	r = m.write<MessageFormat<1, ArgStr, ArgU8>>(fits, 4); MC_CHECK(r == 0, "writing a long string returned %d", r);
	r = m.write<MessageFormat<1, ArgU8>>(4); MC_CHECK(r == 0, "writing returned %d", r);
	b = P->bytes(m); MC_CHECK(b == ref::message(1, {ref::vu(ref::U8, 4)}), "a message written again is %s", ref::hexs(b));
	count(1);
	p.done();
}

/* descriptors in messages, over a unix connection */
struct FdHandler : EventHandler { Connection *c = nullptr; int n = 0; std::function<void(const Message &)> on; void onConnected(Context *, Connection *k) override { c = k; } void onDisconnected(Context *, Connection *) override { c = nullptr; } void recvMessage(Context *, Connection *, const Message &m) override { n++; if (on) on(m); } };
void c24_fds()
{
	World w; W = &w; w.fam = AF_UNIX; begin(w);
	Addr a = addr_of(AF_UNIX, 0);
	FdHandler h; Loop loop; Context *ctx = new Context(&h, &loop);
	int r = ctx->listen(sa(a), a.size()); MC_CHECK(r == 0, "listen returned %d", r);
	Sock *e = simk::env_connect(a); loop.waitAndProcess(0); loop.waitAndProcess(0);
	MC_CHECK(h.c, "not connected");
	int fid = 0; int fd = simk::env_dummy_fd(&fid); simk::File *file = simk::file_of(fd);
	typedef MessageFormat<5, ArgU32, ArgFd, ArgStr> F;
	switch (pick(3, "way")) {
	case 0: { Message m; r = m.write<F>(7, fd, std::string("x")); MC_CHECK(r == 0, "write returned %d", r); r = h.c->sendMsg(m); break; }
	case 1: { r = h.c->send<F>(7, fd, std::string("x")); break; }
	default: { Encoder en(5); r = en.writeU32(7) | en.writeFd(fd) | en.write("x"); MC_CHECK(r == 0, "encoding returned %d", r); r = h.c->sendMsg(en.getMessage()); break; }
	}
	MC_CHECK(r == 0, "sending returned %d", r);
	std::vector<simk::File *> got; Bytes b = simk::env_recv(e, SIZE_MAX, &got);
	MC_CHECK(got.size() == 1 && got[0] == file, "%zu descriptors received", got.size());
	ref::Val x; x.t = ref::FD; x.i = 0;
	MC_CHECK(b.size() == ref::message(5, {ref::vu(ref::U32, 7), x, ref::vs("x")}).size(), "%s received", ref::hexs(b));
	/* and back */
	h.on = [&](const Message &m) {
		unsigned u = 0; int f1 = -1, f2 = -1; std::string s;
		int r;
		if (pick(2, "way of reading")) { r = m.read<F>(u, f1, s); MC_CHECK(r == 0, "read returned %d", r); }
		else { Decoder d(m); r = d.read(u); if (!r) r = d.readFd(f1); if (!r) r = d.read(s); MC_CHECK(r == 0, "decoding returned %d", r); }
		MC_CHECK(u == 7 && s == "x" && simk::file_of(f1) == file, "other values read");
		{ Decoder d(m); int32_t i; r = d.readFd(i); MC_CHECK(r < 0, "reading a descriptor where a number is returned %d", r); }
	};
	simk::env_send(e, b.data(), b.size(), got);
	for (auto *f : got) simk::env_unref(f);
	loop.waitAndProcess(0);
	MC_CHECK(h.n == 1, "%d messages delivered", h.n);
	simk::env_close_fd(fd);
	r = ctx->stop(); MC_CHECK(r == 0, "stop returned %d", r);
	MC_CHECK(!h.c, "no disconnected event");
	delete ctx; simk::env_close(e);
}

/* memory that runs out while a message is written or read */
void c24_memory()
{
	Pipe p; P = &p;
	typedef MessageFormat<6, ArgU32, ArgStr, ArgBuf> F;
	std::string s(40, 'q'); std::vector<uint8_t> v(300, 3);
	Bytes want = ref::message(6, {ref::vu(ref::U32, 9), ref::vs(s), ref::vb(Bytes(v.begin(), v.end()))});
	int way = pick(6, "operation");
	cfg.maxfaults = 2;
	cfg.faults = simk::F_MALLOC;
	size_t nd = simk::dgrams.size(); int f0 = simk::faults_injected; int r = 0;
	{
		Addr to = p.b;
		auto send = [&](const Message &m) { return p.ctx->sendMsgTo(m, sa(to), to.size()); };
		if (way == 0) { Message m; r = m.write<F>(9, s, v); if (r == 0) r = send(m); else { int q = send(m); MC_CHECK(q < 0, "a message that was not written is sent"); } }
		else if (way == 1) { Message m; r = m.write(6, "%u%s%p%u", 9u, s.c_str(), (void *)v.data(), (unsigned)v.size()); if (r == 0) r = send(m); }
		else if (way == 2) { Encoder e(6); r = e.write((uint32_t)9); if (!r) r = e.write(s); if (!r) r = e.write(v); if (!r) r = send(e.getMessage()); }
		else if (way == 3) { Message m; { simk::NoFault nf; r = m.write<MessageFormat<6, ArgU8>>(1); } r = m.write<F>(9, s, v); if (r == 0) r = send(m); else { int q = send(m); MC_CHECK(q < 0, "a message that was not written is sent"); } }
		else if (way == 4) { Message m; { simk::NoFault nf; r = m.write<F>(9, s, v); } uint32_t u = 0; std::string s2; std::vector<uint8_t> v2; r = m.read<F>(u, s2, v2); if (r == 0) { MC_CHECK(u == 9 && s2 == s && v2 == v, "other values read"); r = send(m); } }
		else { Message m; { simk::NoFault nf; r = m.write<F>(9, s, v); } uint32_t u = 0; std::string s2; std::vector<uint8_t> v2; Decoder d(m); r = d.read(u); if (!r) r = d.read(s2); if (!r) r = d.read(v2); if (r == 0) { MC_CHECK(u == 9 && s2 == s && v2 == v, "other values read"); r = send(m); } }
	}
	note("  result %d after %d failures", r, simk::faults_injected - f0);
	if (simk::faults_injected == f0) MC_CHECK(r == 0, "failed with %d although nothing went wrong", r);
	if (r == 0) { MC_CHECK(simk::dgrams.size() == nd + 1, "success, but nothing was sent"); MC_CHECK(simk::dgrams.back().data == want, "sent %s instead of %s", ref::hexs(simk::dgrams.back().data), ref::hexs(want)); }
	else MC_CHECK(simk::dgrams.size() == nd, "failed with %d, but something was sent", r);
	cfg.faults = 0;
	observe(r);
	p.done();
}

/* ------------------------------------------------------------------ */
/* the same history through C and through C++                          */
/* ------------------------------------------------------------------ */
/* addresses with their text */
std::map<Addr, std::string> *TEXT;
Addr named(int fam, int n)
{
	static std::map<Addr, std::string> t; TEXT = &t;
	std::string x = fam == AF_INET ? "inet:127.0.0.1:" + std::to_string(5000 + n) : fam == AF_INET6 ? "inet6:::1:" + std::to_string(5000 + n) : n == 0 ? "unix:@mc" : "unix:/tmp/mc.sock";
	sockaddr_storage ss; memset(&ss, 0, sizeof(ss)); uint32_t l = sizeof(ss);
	int r = pomp_addr_parse(x.c_str(), (sockaddr *)&ss, &l); MC_CHECK(r == 0, "parsing %s returned %d", x.c_str(), r);
	Addr a((const char *)&ss, l); t[a] = x;
	return a;
}
struct Log { std::vector<std::string> l; void add(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap); l.push_back(b); note("    %s", b); } };
enum { CON, DIS, MSG, RAW };
typedef MessageFormat<70, ArgU32, ArgStr> Hello;
/* the port of a client is given by the kernel */
bool g_anyport;
std::string localstr(const sockaddr *p, uint32_t n) { if (!p) return "none"; Bytes b((const char *)p, n); if (g_anyport && p->sa_family != AF_UNIX) { b[2] = b[3] = 0; } return ref::hexs(b); }
std::string sastr(const sockaddr *p, uint32_t n) { return p ? ref::hexs(Bytes((const char *)p, n)) : "none"; }

/* one context driven through one of the interfaces; connections are numbers */
struct Drv {
	Log *log; std::function<void(int ev, int conn)> act; std::vector<bool> live; std::vector<int> reads;
	virtual ~Drv() {}
	virtual int listen(const Addr &a, int how) = 0; virtual int connect(const Addr &a, int how) = 0; virtual int bind(const Addr &a, int how) = 0;
	virtual int stop() = 0; virtual int set_raw() = 0;
	virtual int bcast(int how, uint32_t n) = 0; virtual int send(int c, int how, uint32_t n) = 0; virtual int send_to(const Addr &a, int how, uint32_t n) = 0;
	virtual int braw(const Bytes &b) = 0; virtual int sraw(int c, const Bytes &b) = 0;
	virtual int disconnect(int c) = 0; virtual std::string info(int c) = 0; virtual std::string list() = 0; virtual std::string local() = 0;
	virtual int process(int how, int t) = 0; virtual int wakeup() = 0;
	virtual int destroy() = 0;
	Bytes bytes(uint32_t n) { Bytes b; for (size_t i = 0, k = n % 4 == 1 ? 700 : n % 9 + 1; i < k; i++) b += (char)(n + i * 3); return b; }
	std::string text(uint32_t n) { return n % 3 == 0 ? "" : std::string(n % 7, 'a' + n % 26); }
};
int fdok(int fd, const Addr &peer) { Sock *s = simk::sock_of(fd); return s && (peer.empty() || s->remote == peer); }

struct CDrv : Drv {
	struct pomp_loop *loop = nullptr; struct pomp_ctx *p; std::map<struct pomp_conn *, int> id; std::vector<struct pomp_conn *> conn; bool dgram = false;
	static void ev(struct pomp_ctx *, enum pomp_event e, struct pomp_conn *c, const struct pomp_msg *m, void *ud) {
		CDrv &d = *(CDrv *)ud;
		if (e == POMP_EVENT_CONNECTED) { d.id[c] = (int)d.conn.size(); d.conn.push_back(c); d.live.push_back(true); d.log->add("event connected %d", d.id[c]); }
		if (d.dgram && e == POMP_EVENT_MSG) { d.conn.assign(1, c); d.id[c] = 0; d.live.assign(1, true); }
		int k = d.id.at(c);
		if (e == POMP_EVENT_DISCONNECTED) d.log->add("event disconnected %d", k);
		if (e == POMP_EVENT_MSG) {
			Bytes b = wire::msg_bytes(m); uint32_t u = 0; char *s = nullptr;
			int r = pomp_msg_get_id(m) == 70 ? pomp_msg_read(m, "%u%ms", &u, &s) : -EINVAL;
			if (r && pomp_msg_get_id(m) == 70) { struct pomp_decoder *dec = pomp_decoder_new(); pomp_decoder_init(dec, m); r = pomp_decoder_read_u32(dec, &u); const char *cs; if (!r) r = pomp_decoder_read_cstr(dec, &cs); pomp_decoder_destroy(dec); }
			d.log->add("event message %d id %u read %d %u %s", k, pomp_msg_get_id(m), r, r ? 0 : u, r ? "" : s); simk::lib_free(s);
		}
		d.act(e == POMP_EVENT_CONNECTED ? CON : e == POMP_EVENT_DISCONNECTED ? DIS : MSG, k);
		if (e == POMP_EVENT_DISCONNECTED) { d.live[k] = false; d.id.erase(c); }
		if (d.dgram) d.live.assign(1, false);
	}
	static void raw(struct pomp_ctx *, struct pomp_conn *c, struct pomp_buffer *b, void *ud) {
		CDrv &d = *(CDrv *)ud;
		if (d.dgram) { d.conn.assign(1, c); d.id[c] = 0; d.live.assign(1, true); }
		d.log->add("event raw %d %s", d.id.at(c), ref::hexs(wire::buf_bytes(b)));
		d.act(RAW, d.id.at(c));
		if (d.dgram) d.live.assign(1, false);
	}
	CDrv(bool own) { if (own) p = pomp_ctx_new(ev, this); else { loop = pomp_loop_new(); p = pomp_ctx_new_with_loop(ev, this, loop); } }
	int listen(const Addr &a, int how) override { return how ? pomp_ctx_listen_with_access_mode(p, sa(a), a.size(), 0640) : pomp_ctx_listen(p, sa(a), a.size()); }
	int connect(const Addr &a, int) override { return pomp_ctx_connect(p, sa(a), a.size()); }
	int bind(const Addr &a, int) override { dgram = true; return pomp_ctx_bind(p, sa(a), a.size()); }
	int stop() override { return pomp_ctx_stop(p); }
	int set_raw() override { return pomp_ctx_set_raw(p, raw); }
	Bytes enc(int how, uint32_t n) { return how == 3 ? ref::message(71, {}) : ref::message(70, {ref::vu(ref::U32, n), ref::vs(text(n))}); }
	int with(const Bytes &b, std::function<int(struct pomp_msg *)> f) { struct pomp_msg *m = libmsg(b); int r = f(m); pomp_msg_destroy(m); return r; }
	int bcast(int how, uint32_t n) override { return with(enc(how, n), [&](struct pomp_msg *m) { return pomp_ctx_send_msg(p, m); }); }
	int send(int c, int how, uint32_t n) override { return with(enc(how, n), [&](struct pomp_msg *m) { return pomp_conn_send_msg(conn[c], m); }); }
	int send_to(const Addr &a, int how, uint32_t n) override { return with(enc(how, n), [&](struct pomp_msg *m) { return pomp_ctx_send_msg_to(p, m, sa(a), a.size()); }); }
	int withbuf(const Bytes &b, std::function<int(struct pomp_buffer *)> f) { struct pomp_buffer *x = pomp_buffer_new_with_data(b.data(), b.size()); int r = f(x); pomp_buffer_unref(x); return r; }
	int braw(const Bytes &b) override { return withbuf(b, [&](struct pomp_buffer *x) { return pomp_ctx_send_raw_buf(p, x); }); }
	int sraw(int c, const Bytes &b) override { return withbuf(b, [&](struct pomp_buffer *x) { return pomp_conn_send_raw_buf(conn[c], x); }); }
	int disconnect(int c) override { return pomp_conn_disconnect(conn[c]); }
	std::string info(int c) override {
		uint32_t l = 0, q = 0; const sockaddr *a = pomp_conn_get_local_addr(conn[c], &l), *b = pomp_conn_get_peer_addr(conn[c], &q); const struct pomp_cred *cr = pomp_conn_get_peer_cred(conn[c]);
		Addr pa = b ? Addr((const char *)b, q) : Addr();
		return "local " + localstr(a, l) + " peer " + sastr(b, q) + " cred " + (cr ? std::to_string(cr->pid) + "," + std::to_string(cr->uid) + "," + std::to_string(cr->gid) : "none") + " fd " + std::to_string(fdok(pomp_conn_get_fd(conn[c]), pa));
	}
	/* what the events of this run say */
	std::string list() override { std::string s; for (size_t i = 0; i < live.size(); i++) if (live[i] && !dgram) s += " " + std::to_string(i); return s; }
	std::string local() override { uint32_t n = 0; const sockaddr *a = pomp_ctx_get_local_addr(p, &n); return sastr(a, n); }
	int process(int how, int t) override { return how == 0 ? pomp_ctx_wait_and_process(p, t) : how == 1 ? pomp_ctx_process_fd(p) : pomp_loop_wait_and_process(pomp_ctx_get_loop(p), t); }
	int wakeup() override { return pomp_ctx_wakeup(p); }
	int destroy() override { int r = pomp_ctx_destroy(p); if (!r && loop) r = pomp_loop_destroy(loop); return r; }
};

struct XDrv : Drv, EventHandler {
	Loop *loop = nullptr; Context *x; bool dgram = false;
	struct K { Connection *c; bool ended; }; std::vector<K> conn;
	int ending = -1;
	int find(Connection *c) { for (size_t i = conn.size(); i-- > 0;) if (conn[i].c == c && live[i]) return (int)i; return -1; }
	void onConnected(Context *cx, Connection *c) override {
		MC_CHECK(cx == x && c, "connected event with %s", c ? "another context" : "no connection");
		MC_CHECK(find(c) < 0, "the object of a live connection is given for a new one");
		conn.push_back({c, false}); live.push_back(true);
		log->add("event connected %zu", conn.size() - 1);
		MC_CHECK(has(c), "a connection is not listed in its connected event");
		act(CON, (int)conn.size() - 1);
	}
	void onDisconnected(Context *cx, Connection *c) override {
		int k = find(c);
		MC_CHECK(cx == x && k >= 0, "disconnected event with %s", cx == x ? "another object than the one of its connected event" : "another context");
		log->add("event disconnected %d", k);
		int was = ending; ending = k;
		act(DIS, k);
		ending = was;
		live[k] = false;
	}
	int begin_recv(Context *cx, Connection *c) {
		MC_CHECK(cx == x, "event of another context");
		MC_CHECK(c, "data without a connection");
		if (dgram) { conn.assign(1, {c, false}); live.assign(1, true); return 0; }
		int k = find(c);
		MC_CHECK(k >= 0, "data with another object than the one of its connected event");
		return k;
	}
	void recvMessage(Context *cx, Connection *c, const Message &m) override {
		int k = begin_recv(cx, c);
		uint32_t u = 0; std::string s = "old";
		int r = m.read<Hello>(u, s);
		log->add("event message %d id %u read %d %u %s", k, m.getId(), r, r ? 0 : u, r ? "" : s.c_str());
		act(MSG, k);
		MC_CHECK(m.getId() == 70 || m.getId() == 71 || m.getId() == 72, "the message has changed while it was handled");
		if (dgram) live.assign(1, false);
	}
	void recvRawBuffer(Context *cx, Connection *c, const std::vector<uint8_t> &v) override {
		int k = begin_recv(cx, c);
		log->add("event raw %d %s", k, ref::hexs(Bytes(v.begin(), v.end())));
		act(RAW, k);
		if (dgram) live.assign(1, false);
	}
	XDrv(bool own) { if (own) x = new Context(this); else { loop = new Loop(); x = new Context(this, loop); } }
	static Address str(const Addr &a) { return Address(TEXT->at(a).c_str()); }
	int listen(const Addr &a, int how) override { Address ad = str(a); MC_CHECK(ad.isValid() && (bool)ad, "%s is not valid", TEXT->at(a).c_str()); return how == 3 ? x->listen(ad, 0640) : how == 2 ? x->listen(ad) : how == 1 ? x->listen(sa(a), a.size(), 0640) : x->listen(sa(a), a.size()); }
	int connect(const Addr &a, int how) override { return how & 1 ? x->connect(str(a)) : x->connect(sa(a), a.size()); }
	int bind(const Addr &a, int how) override { dgram = true; return how & 1 ? x->bind(str(a)) : x->bind(sa(a), a.size()); }
	int stop() override { return x->stop(); }
	int set_raw() override { return x->setRaw(); }
	template<class F> int with(int how, uint32_t n, F f) {
		if (how == 3) { Message m; int r = m.write<MessageFormat<71>>(); MC_CHECK(r == 0, "write returned %d", r); return f(m); }
		if (how == 4) { Encoder e(70); int r = e.write(n) | e.write(text(n)); MC_CHECK(r == 0, "encoding returned %d", r); return f(e.getMessage()); }
		Message m; int r = how == 5 ? m.write(70, "%u%s", n, text(n).c_str()) : m.write<Hello>(n, text(n)); MC_CHECK(r == 0, "write returned %d", r); return f(m);
	}
	int bcast(int how, uint32_t n) override {
		if (how == 0) return x->send(70, "%u%s", n, text(n).c_str());
		if (how == 1) return x->send<Hello>(n, text(n));
		if (how == 2) return va_b(70, "%u%s", n, text(n).c_str());
		return with(how, n, [&](const Message &m) { return x->sendMsg(m); });
	}
	int va_b(uint32_t id, const char *f, ...) { va_list ap; va_start(ap, f); int r = x->sendv(id, f, ap); va_end(ap); return r; }
	int va_c(Connection *c, uint32_t id, const char *f, ...) { va_list ap; va_start(ap, f); int r = c->sendv(id, f, ap); va_end(ap); return r; }
	int send(int c, int how, uint32_t n) override {
		Connection *k = conn[c].c;
		if (how == 0) return k->send(70, "%u%s", n, text(n).c_str());
		if (how == 1) return k->send<Hello>(n, text(n));
		if (how == 2) return va_c(k, 70, "%u%s", n, text(n).c_str());
		return with(how, n, [&](const Message &m) { return k->sendMsg(m); });
	}
	int send_to(const Addr &a, int how, uint32_t n) override { return with(how, n, [&](const Message &m) { return n & 1 ? x->sendMsgTo(m, str(a)) : x->sendMsgTo(m, sa(a), a.size()); }); }
	int braw(const Bytes &b) override { return x->send(std::vector<uint8_t>(b.begin(), b.end())); }
	int sraw(int c, const Bytes &b) override { return conn[c].c->send(std::vector<uint8_t>(b.begin(), b.end())); }
	int disconnect(int c) override { return conn[c].c->disconnect(); }
	std::string info(int c) override {
		Connection *k = conn[c].c;
		uint32_t l = 0, q = 0; const sockaddr *a = k->getLocalAddr(&l), *b = k->getPeerAddr(&q); const struct pomp_cred *cr = k->getPeerCred();
		Addr pa = b ? Addr((const char *)b, q) : Addr();
		return "local " + localstr(a, l) + " peer " + sastr(b, q) + " cred " + (cr ? std::to_string(cr->pid) + "," + std::to_string(cr->uid) + "," + std::to_string(cr->gid) : "none") + " fd " + std::to_string(fdok(k->getFd(), pa));
	}
	bool has(Connection *c) { for (Connection *k : x->getConnections()) if (k == c) return true; return false; }
	std::string list() override {
		std::vector<int> v; bool self = false;
		const ConnectionArray &l = x->getConnections();
		for (Connection *c : l) { int k = find(c); MC_CHECK(k >= 0, "the list has an object that is not a live connection"); v.push_back(k); self |= k == ending; }
		/* inside its own disconnected event a connection may be listed or not */
		if (ending >= 0 && !self) v.push_back(ending);
		std::sort(v.begin(), v.end());
		for (size_t i = 1; i < v.size(); i++) MC_CHECK(v[i] != v[i - 1], "a connection is listed twice");
		Connection *f = x->getConnection();
		MC_CHECK(l.empty() ? !f : f == l[0], "getConnection is not the first of the list");
		std::string s; for (int k : v) if (!dgram) s += " " + std::to_string(k);
		return s;
	}
	std::string local() override { uint32_t n = 0; const sockaddr *a = x->getLocalAddr(&n); return sastr(a, n); }
	int process(int how, int t) override {
		if (how == 0) return x->waitAndProcess(t);
		if (how == 1) return x->processFd();
		MC_CHECK(x->getLoop() && (!loop || x->getLoop() == loop), "getLoop gives another loop");
		MC_CHECK(x->getLoop()->getFd() == x->getFd(), "the loop of the context has another descriptor");
		return x->getLoop()->waitAndProcess(t);
	}
	int wakeup() override { return x->wakeup(); }
	int destroy() override {
		delete x; delete loop;
		/* the objects are gone with their connections */
		if (!dgram) for (auto &k : conn) MC_CHECK(__asan_address_is_poisoned(k.c), "the object of a connection is never freed");
		return 0;
	}
};

struct Cl2 { Sock *e; bool open; };
/* runs the operations on one interface */
struct Run {
	Log log; std::unique_ptr<Drv> d; std::vector<Cl2> cl; uint32_t n = 0; size_t nact = 0;
	void drain(Sock *e, size_t i) { Bytes b = simk::env_recv(e); if (!b.empty()) log.add("client %zu reads %s", i, ref::hexs(b)); else if (e->fin) log.add("client %zu sees the end", i); }
};
void same_logs(const Log &a, const Log &b)
{
	for (size_t i = 0; i < a.l.size() || i < b.l.size(); i++) {
		std::string x = i < a.l.size() ? a.l[i] : "(nothing more)", y = i < b.l.size() ? b.l[i] : "(nothing more)";
		MC_CHECK(x == y, "with the C functions: %s; with the C++ classes: %s", x.c_str(), y.c_str());
	}
	observe_bytes(a.l.data(), 0); for (auto &s : a.l) observe_bytes(s.data(), s.size());
}
int some(Run &r, bool last) { int k = -1; for (size_t i = 0; i < r.d->live.size(); i++) if (r.d->live[i] && (last || k < 0)) k = (int)i; return k; }
void hook(Run &r, const std::vector<int> &acts, bool raw)
{
	r.d->log = &r.log;
	r.d->act = [&r, &acts, raw](int ev, int c) {
		Drv &d = *r.d;
		r.log.add("list%s", d.list().c_str());
		if (ev != DIS) r.log.add("info %s", d.info(c).c_str());
		if (r.nact >= acts.size()) return;
		int a = acts[r.nact++]; uint32_t n = 1000 + r.n++;
		switch (a) {
		case 0: return;
		case 1: r.log.add("disconnect self %d", d.disconnect(c)); break;
		case 2: { int o = -1; for (size_t i = 0; i < d.live.size(); i++) if (d.live[i] && (int)i != c) o = (int)i; if (o >= 0) r.log.add("disconnect other %d", d.disconnect(o)); break; }
		case 3: r.log.add("stop %d", d.stop()); break;
		case 4: if (raw) r.log.add("send %d", d.sraw(c, n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("send %d", d.send(c, n % 6, n)); break;
		case 5: if (raw) r.log.add("broadcast %d", d.braw(n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("broadcast %d", d.bcast(n % 6, n)); break;
		}
		r.log.add("list%s", d.list().c_str());
	};
}
void settle2(Run &r, int how)
{
	for (int i = 0; i < 60; i++) { int q = r.d->process(how, 0); if (q == -ETIMEDOUT) return; if (q != 0) { r.log.add("process %d", q); return; } if (how == 1 && i > 12) return; }
}
Run *mkrun(int cxx, bool own) { Run *r = new Run(); r->d.reset(cxx ? (Drv *)new XDrv(own) : (Drv *)new CDrv(own)); return r; }

void server_ops(Run &r, const Addr &a, int fam, const std::vector<int> &ops, const std::vector<int> &acts, bool raw, int lhow, int phow)
{
	Drv &d = *r.d;
	hook(r, acts, raw);
	if (raw) r.log.add("set raw %d", d.set_raw());
	r.log.add("local %s", d.local().c_str());
	int started = d.listen(a, lhow);
	r.log.add("listen %d", started);
	r.log.add("local %s", d.local().c_str());
	if (fam == AF_UNIX && a[2]) r.log.add("mode %o", simk::vfs_mode["/tmp/mc.sock"]);
	auto join = [&] { if (r.cl.size() >= 4) return; Addr from = fam == AF_UNIX ? Addr() : simk::in4(INADDR_LOOPBACK, 7000 + r.cl.size()); simk::env_pid = 500 + (int)r.cl.size(); Sock *e = simk::env_connect(a, from); simk::env_pid = 0; if (e) r.cl.push_back({e, true}); };
	join(); join();
	for (size_t i = 0; i < ops.size(); i++) {
		int first = -1, lastc = -1; for (size_t k = 0; k < r.cl.size(); k++) if (r.cl[k].open) { if (first < 0) first = (int)k; lastc = (int)k; }
		uint32_t n = r.n++;
		switch (ops[i]) {
		case 0: d.process(phow, 0); break;
		case 1: join(); break;
		case 2: if (first >= 0) { simk::env_close(r.cl[first].e); r.cl[first].open = false; } break;
		case 3: if (lastc >= 0) { simk::env_reset(r.cl[lastc].e); r.cl[lastc].open = false; } break;
		case 4: if (first >= 0) { Bytes m = raw ? d.bytes(n) : n % 3 == 0 ? ref::message(70, {ref::vi(ref::I8, 3)}) : n % 3 == 1 ? ref::message(70, {ref::vu(ref::U32, n), ref::vs(d.text(n))}) : ref::message(72, {}); simk::env_send(r.cl[first].e, m.data(), m.size()); } break;
		case 5: if (raw) r.log.add("broadcast %d", d.braw(n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("broadcast %d", d.bcast(n % 6, n)); break;
		case 6: case 7: { int c = some(r, ops[i] == 7); if (c >= 0) { if (raw) r.log.add("send %d", d.sraw(c, n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("send %d", d.send(c, n % 6, n)); } break; }
		case 8: { int c = some(r, n & 1); if (c >= 0) r.log.add("disconnect %d", d.disconnect(c)); break; }
		case 9: r.log.add("stop %d", d.stop()); break;
		case 10: r.log.add("listen %d", d.listen(a, lhow)); break;
		}
		r.log.add("list%s", d.list().c_str());
		for (size_t k = 0; k < r.cl.size(); k++) if (r.cl[k].open) r.drain(r.cl[k].e, k);
	}
	settle2(r, phow);
	for (size_t k = 0; k < r.cl.size(); k++) if (r.cl[k].open) r.drain(r.cl[k].e, k);
	r.log.add("list%s", d.list().c_str());
	if (phow != 1) { r.log.add("wakeup %d", d.wakeup()); r.log.add("woken %d", d.process(phow, 50)); r.log.add("not woken %d", d.process(phow, 3)); }
	r.log.add("stop %d", d.stop());
	settle2(r, phow);
	r.log.add("list%s", d.list().c_str());
	for (size_t k = 0; k < r.cl.size(); k++) if (r.cl[k].open) { r.drain(r.cl[k].e, k); simk::env_close(r.cl[k].e); }
	r.log.add("destroy %d", d.destroy());
}
void twin(std::function<void(Run &)> body, bool own, bool anyport = false)
{
	g_anyport = anyport;
	Log first;
	for (int cxx = 0; cxx < 2; cxx++) {
		note("  --- %s ---", cxx ? "C++ classes" : "C functions");
		std::unique_ptr<Run> r(mkrun(cxx, own));
		body(*r);
		if (!cxx) first = r->log; else same_logs(first, r->log);
	}
	count(1);
}
std::vector<int> picks(int n, int of, const char *what) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(pick(of, what)); return v; }

void c24_server(bool raw, int depth, int nact)
{
	World w; W = &w; begin(w);
	int fam = pick(2, "family") ? AF_UNIX : AF_INET;
	std::vector<int> ops = picks(depth, 11, "operation"), acts;
	/* what the handlers do: one or two actions, in the first events */
	int pos = pick(4, "event with an action");
	for (int i = 0; i < pos; i++) acts.push_back(0);
	for (int i = 0; i < nact; i++) acts.push_back(pick(6, "action"));
	Addr a = named(fam, fam == AF_UNIX ? 1 : 0);
	int lhow = fam == AF_UNIX ? (ops[0] & 1) * 3 : (ops[0] & 1) * 2, phow = ops[0] % 3;
	twin([&](Run &r) { server_ops(r, a, fam, ops, acts, raw, r.d.get() && dynamic_cast<CDrv *>(r.d.get()) ? (fam == AF_UNIX && lhow ? 1 : 0) : lhow, phow); }, ops[0] % 2);
}
void c24_server_msg() { c24_server(false, thorough() ? 4 : 3, 1); }
void c24_server_raw() { c24_server(true, thorough() ? 3 : 2, 1); }
void c24_server_acts() { c24_server(false, 2, thorough() ? 3 : 2); }

/* a client with its reconnections */
void c24_client()
{
	World w; W = &w; begin(w);
	int fam = pick(2, "family") ? AF_UNIX : AF_INET;
	bool raw = pick(2, "raw");
	std::vector<int> ops = picks(thorough() ? 5 : 4, 9, "operation"), acts;
	int pos = pick(3, "event with an action"); for (int i = 0; i < pos; i++) acts.push_back(0);
	acts.push_back(pick(6, "action"));
	Addr a = named(fam, 0);
	twin([&](Run &r) {
		Drv &d = *r.d;
		hook(r, acts, raw);
		Sock *l = simk::env_listen(a);
		if (raw) r.log.add("set raw %d", d.set_raw());
		r.log.add("connect %d", d.connect(a, ops[0]));
		r.log.add("local %s", d.local().c_str());
		Sock *e = nullptr;
		for (int op : ops) {
			uint32_t n = r.n++;
			switch (op) {
			case 0: r.log.add("process %d", d.process(ops[0] % 3, 1)); if (!e) e = simk::env_accept(l); break;
			case 1: if (e) { simk::env_close(e); e = nullptr; } break;
			case 2: if (e) { simk::env_reset(e); e = nullptr; } break;
			case 3: if (e) { Bytes m = raw ? d.bytes(n) : ref::message(70, {ref::vu(ref::U32, n), ref::vs(d.text(n))}); simk::env_send(e, m.data(), m.size()); } break;
			case 4: if (raw) r.log.add("broadcast %d", d.braw(n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("broadcast %d", d.bcast(n % 6, n)); break;
			case 5: { int c = some(r, true); if (c >= 0) { if (raw) r.log.add("send %d", d.sraw(c, n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("send %d", d.send(c, n % 6, n)); } break; }
			case 6: { int c = some(r, true); if (c >= 0) r.log.add("disconnect %d", d.disconnect(c)); break; }
			case 7: r.log.add("stop %d", d.stop()); r.log.add("list%s", d.list().c_str()); r.log.add("connect %d", d.connect(a, n)); break;
			case 8: r.log.add("wait %d", d.process(0, 2500)); if (!e) e = simk::env_accept(l); break;
			}
			r.log.add("list%s", d.list().c_str());
			if (e) r.drain(e, 0);
		}
		settle2(r, 0);
		if (e) r.drain(e, 0);
		r.log.add("stop %d", d.stop());
		settle2(r, 0);
		r.log.add("list%s", d.list().c_str());
		if (e) simk::env_close(e);
		while (Sock *o = simk::env_accept(l)) simk::env_close(o);
		simk::env_close(l);
		r.log.add("destroy %d", d.destroy());
	}, ops[0] & 1, true);
}

/* datagrams */
void c24_dgram()
{
	World w; W = &w; begin(w);
	int fam = pick(2, "family") ? AF_INET6 : AF_INET;
	bool raw = pick(2, "raw");
	std::vector<int> ops = picks(thorough() ? 5 : 4, 6, "operation"), acts = picks(2, 3, "action");
	for (int &x : acts) x = x == 1 ? 4 : x == 2 ? 3 : 0;
	Addr a = named(fam, 0), p1 = named(fam, 1), p2 = named(fam, 2);
	twin([&](Run &r) {
		Drv &d = *r.d;
		hook(r, acts, raw);
		simk::dgrams.clear();
		if (raw) r.log.add("set raw %d", d.set_raw());
		r.log.add("bind %d", d.bind(a, ops[0]));
		r.log.add("local %s", d.local().c_str());
		for (int op : ops) {
			uint32_t n = r.n++;
			switch (op) {
			case 0: case 1: { Bytes m = raw ? d.bytes(n) : ref::message(70, {ref::vu(ref::U32, n), ref::vs(d.text(n))}); simk::env_dgram(op ? p1 : p2, a, m.data(), m.size()); break; }
			case 2: r.log.add("process %d", d.process(ops[0] % 3, 0)); break;
			case 3: if (!raw) r.log.add("send to %d", d.send_to(n & 2 ? p1 : p2, n % 3 + 3, n)); break;
			case 4: r.log.add("stop %d", d.stop()); r.log.add("bind %d", d.bind(a, n)); break;
			case 5: if (raw) r.log.add("broadcast %d", d.braw(n % 5 ? d.bytes(n) : d.text(0))); else r.log.add("broadcast %d", d.bcast(n % 6, n)); break;
			}
			for (auto &g : simk::dgrams) r.log.add("sent %s to %s", ref::hexs(g.data), ref::hexs(g.to));
			simk::dgrams.clear();
			r.log.add("list%s", d.list().c_str());
		}
		settle2(r, 0);
		for (auto &g : simk::dgrams) r.log.add("sent %s to %s", ref::hexs(g.data), ref::hexs(g.to));
		r.log.add("stop %d", d.stop());
		settle2(r, 0);
		r.log.add("destroy %d", d.destroy());
	}, ops[0] & 1);
}

/* ------------------------------------------------------------------ */
/* loops, events and timers                                            */
/* ------------------------------------------------------------------ */
struct TCl : Timer::Handler { std::function<void()> f; void processTimer() override { f(); } };
struct ECl : Event::Handler { std::function<void()> f; void processEvent() override { f(); } };
struct LCl : Loop::Handler { std::function<void(int, uint32_t)> f; void processFd(int fd, uint32_t e) override { f(fd, e); } };
void c24_loop()
{
	World w; W = &w; w.poll = pick(2, "loop implementation"); begin(w);
	std::vector<int> ops = picks(thorough() ? 5 : 4, 16, "operation");
	static Log *LG;
	Log first;
	for (int cxx = 0; cxx < 2; cxx++) {
		note("  --- %s ---", cxx ? "C++ classes" : "C functions");
		Log log; LG = &log;
		int fds[2]; fds[0] = simk::env_eventfd(); fds[1] = simk::env_eventfd();
		auto fdcb = [&](int fd, uint32_t ev) { log.add("fd %d events %u", fd == fds[0] ? 0 : fd == fds[1] ? 1 : -1, ev); simk::env_eventfd_read(fd); };
		Loop::HandlerFunc lf(fdcb); LCl lc; lc.f = fdcb;
		Event::HandlerFunc ef([&] { log.add("event"); }); ECl ec; ec.f = [&] { log.add("event"); };
		Timer::HandlerFunc tf; tf.set([&] { log.add("timer at %llu", (unsigned long long)0); }); TCl tc; tc.f = [&] { log.add("timer at %llu", 0ull); };
		uint64_t t0 = now();
		if (cxx) {
			Loop *loop = new Loop(); Event *e = new Event(); Timer *t = new Timer(loop, ops[0] & 1 ? (Timer::Handler *)&tc : &tf);
			Loop ref((struct pomp_loop *)*loop); Loop *two = new Loop();
			MC_CHECK(loop->get() == (struct pomp_loop *)*loop && ref.get() == loop->get(), "a loop is not the loop it stands for");
			for (size_t i = 0; i < ops.size(); i++) switch (ops[i]) {
			case 0: log.add("add %d", loop->add(fds[0], Loop::EVENT_IN, &lf)); break;
			case 1: log.add("add %d", ref.add(fds[1], Loop::EVENT_IN | Loop::EVENT_OUT, &lc)); break;
			case 2: log.add("update %d", loop->update(fds[0], Loop::EVENT_OUT)); break;
			case 3: log.add("remove %d", loop->remove(fds[0])); break;
			case 4: log.add("has %d %d", loop->hasFd(fds[0]), ref.hasFd(fds[1])); break;
			case 5: simk::env_eventfd_write(fds[0], 1); simk::env_eventfd_write(fds[1], 1); break;
			case 6: log.add("signal %d", e->signal()); break;
			case 7: log.add("clear %d", e->clear()); break;
			case 8: log.add("attach %d", e->attachToLoop(loop, i & 1 ? (Event::Handler *)&ec : &ef)); log.add("attached %d %d %d", e->isAttached(loop), e->isAttached(nullptr), e->isAttached(two)); break;
			case 9: log.add("detach %d", e->detachFromLoop(loop)); log.add("attached %d %d", e->isAttached(loop), e->isAttached(nullptr)); break;
			case 10: log.add("set %d", t->set(10)); break;
			case 11: log.add("set %d", i & 1 ? t->setPeriodic(5, 7) : t->set(5, 7)); break;
			case 14: log.add("set %d", i & 1 ? t->setPeriodic(5, 0) : t->setPeriodic(0, 4)); break;
			case 15: log.add("set %d", i & 1 ? t->set(0) : t->set(0, 3)); break;
			case 12: log.add("clear %d", t->clear()); log.add("wakeup %d", loop->wakeup()); break;
			case 13: log.add("process %d at %llu", i & 1 ? loop->waitAndProcess(12) : i & 2 ? loop->processFd() : ref.waitAndProcess(0), (unsigned long long)(now() - t0)); break;
			}
			log.add("process %d at %llu", loop->waitAndProcess(6), (unsigned long long)(now() - t0));
			log.add("remove %d %d", loop->remove(fds[0]), loop->remove(fds[1]));
			log.add("detach %d", e->detachFromLoop(loop));
			delete t; delete e; delete two; delete loop;
		} else {
			struct Ud { std::function<void(int, uint32_t)> f; std::function<void()> e, t; } ud{fdcb, [&] { log.add("event"); }, [&] { log.add("timer at %llu", 0ull); }};
			struct pomp_loop *loop = pomp_loop_new(), *two = pomp_loop_new(); struct pomp_evt *e = pomp_evt_new();
			auto fcb = [](int fd, uint32_t ev, void *u) { ((Ud *)u)->f(fd, ev); }; auto ecb = [](struct pomp_evt *, void *u) { ((Ud *)u)->e(); };
			struct pomp_timer *t = pomp_timer_new(loop, [](struct pomp_timer *, void *u) { ((Ud *)u)->t(); }, &ud);
			for (size_t i = 0; i < ops.size(); i++) switch (ops[i]) {
			case 0: log.add("add %d", pomp_loop_add(loop, fds[0], POMP_FD_EVENT_IN, fcb, &ud)); break;
			case 1: log.add("add %d", pomp_loop_add(loop, fds[1], POMP_FD_EVENT_IN | POMP_FD_EVENT_OUT, fcb, &ud)); break;
			case 2: log.add("update %d", pomp_loop_update(loop, fds[0], POMP_FD_EVENT_OUT)); break;
			case 3: log.add("remove %d", pomp_loop_remove(loop, fds[0])); break;
			case 4: log.add("has %d %d", pomp_loop_has_fd(loop, fds[0]) != 0, pomp_loop_has_fd(loop, fds[1]) != 0); break;
			case 5: simk::env_eventfd_write(fds[0], 1); simk::env_eventfd_write(fds[1], 1); break;
			case 6: log.add("signal %d", pomp_evt_signal(e)); break;
			case 7: log.add("clear %d", pomp_evt_clear(e)); break;
			case 8: log.add("attach %d", pomp_evt_attach_to_loop(e, loop, ecb, &ud)); log.add("attached %d %d %d", pomp_evt_is_attached(e, loop) != 0, pomp_evt_is_attached(e, nullptr) != 0, pomp_evt_is_attached(e, two) != 0); break;
			case 9: log.add("detach %d", pomp_evt_detach_from_loop(e, loop)); log.add("attached %d %d", pomp_evt_is_attached(e, loop) != 0, pomp_evt_is_attached(e, nullptr) != 0); break;
			case 10: log.add("set %d", pomp_timer_set(t, 10)); break;
			case 11: log.add("set %d", pomp_timer_set_periodic(t, 5, 7)); break;
			case 14: log.add("set %d", i & 1 ? pomp_timer_set_periodic(t, 5, 0) : pomp_timer_set_periodic(t, 0, 4)); break;
			case 15: log.add("set %d", i & 1 ? pomp_timer_set(t, 0) : pomp_timer_set_periodic(t, 0, 3)); break;
			case 12: log.add("clear %d", pomp_timer_clear(t)); log.add("wakeup %d", pomp_loop_wakeup(loop)); break;
			case 13: log.add("process %d at %llu", i & 1 ? pomp_loop_wait_and_process(loop, 12) : i & 2 ? pomp_loop_process_fd(loop) : pomp_loop_wait_and_process(loop, 0), (unsigned long long)(now() - t0)); break;
			}
			log.add("process %d at %llu", pomp_loop_wait_and_process(loop, 6), (unsigned long long)(now() - t0));
			log.add("remove %d %d", pomp_loop_remove(loop, fds[0]), pomp_loop_remove(loop, fds[1]));
			log.add("detach %d", pomp_evt_detach_from_loop(e, loop));
			pomp_timer_destroy(t); pomp_evt_destroy(e); pomp_loop_destroy(two); pomp_loop_destroy(loop);
			first = log;
		}
		simk::env_close_fd(fds[0]); simk::env_close_fd(fds[1]);
		if (cxx) same_logs(first, log);
	}
	count(1);
}

/* long arguments and buffers */
void c24_sizes()
{
	static const size_t N[] = {0, 1, 127, 128, 255, 256, 4095, 4096, 4097, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1000000};
	size_t n = N[pick(18, "size")];
	bool own = pick(2, "loop of the context");
	int what = pick(4, "what");
	auto data = [&](size_t k) { Bytes b(k, 0); for (size_t i = 0; i < k; i++) b[i] = (char)(1 + (i * 7 + i / 250) % 255); return b; };
	World w; W = &w; begin(w);
	if (what == 3) {
		if (n >= 65536) return;
		typedef MessageFormat<9, ArgStr, ArgBuf> F;
		std::string st = data(n), r; Bytes raw = data(n); std::vector<uint8_t> v(raw.begin(), raw.end()), q(3, 1);
		Message m; int a = m.write<F>(st, v);
		struct pomp_msg *c = pomp_msg_new(); int b = pomp_msg_write(c, 9, "%s%p%u", st.c_str(), v.empty() ? "" : (const void *)v.data(), (unsigned)n);
		note("  write %d, C write %d", a, b);
		MC_CHECK(a == b, "writing returned %d instead of %d", a, b);
		if (a == 0) {
			MC_CHECK(m.read<F>(r, q) == 0 && r == st && q == v, "other values read");
		}
		pomp_msg_destroy(c);
		count(1);
		return;
	}
	Addr a = named(AF_UNIX, 0);
	twin([&](Run &r) {
		Drv &d = *r.d; std::vector<int> none;
		hook(r, none, true);
		d.set_raw();
		r.log.add("listen %d", d.listen(a, 0));
		Sock *e[2]; for (auto &x : e) { x = simk::env_connect(a); MC_CHECK(x, "refused"); }
		settle2(r, 0);
		Bytes b = data(n), in[2];
		if (what == 0) r.log.add("send %d", d.sraw(some(r, true), b));
		else if (what == 1) r.log.add("broadcast %d", d.braw(b));
		else { simk::env_send(e[0], b.data(), b.size()); settle2(r, 0); }
		for (int i = 0; i < 40; i++) { for (int k = 0; k < 2; k++) in[k] += simk::env_recv(e[k]); settle2(r, 0); }
		for (int k = 0; k < 2; k++) r.log.add("%zu bytes, %s", in[k].size(), in[k] == b.substr(0, in[k].size()) ? "as sent" : "others");
		if (what == 1) MC_CHECK(in[0] == b && in[1] == b, "a broadcast buffer was not received");
		for (auto x : e) simk::env_close(x);
		settle2(r, 0);
		r.log.add("stop %d", d.stop()); settle2(r, 0);
		r.log.add("destroy %d", d.destroy());
	}, own);
}

/* text addresses */
void c24_address()
{
	static const char *l[] = {"inet:127.0.0.1:1234", "inet:0.0.0.0:0", "inet:1.2.3.4:65535", "inet:1.2.3.4:65536", "inet:1.2.3.4:", "inet:300.1.1.1:5", "inet6:::1:77", "inet6:fe80::1:77", "inet6:::1:", "unix:/tmp/x", "unix:@abs", "unix:", "unix:@", "unix:rel/name", "foo", "", "inet:", ":", "inet6:zz:1"};
	const char *s = l[pick(sizeof(l) / sizeof(*l), "address")];
	if (pick(2, "product root")) simk::env["PRODUCT_ROOT_CFG"] = "/root/dir";
	note("  %s", s);
	sockaddr_storage ss; memset(&ss, 0, sizeof(ss)); uint32_t n = sizeof(ss);
	int r = pomp_addr_parse(s, (sockaddr *)&ss, &n);
	Address a(s);
	MC_CHECK(a.isValid() == (r == 0), "%s is %s, but parsing it returned %d", s, a.isValid() ? "valid" : "not valid", r);
	MC_CHECK((bool)a == a.isValid(), "the conversion to bool is not isValid");
	if (r == 0) MC_CHECK(a.len() == n && Bytes((const char *)a.addr(), n) == Bytes((const char *)&ss, n), "%s gives another address", s);
	Address b(a);
	MC_CHECK(b.isValid() == a.isValid(), "a copy differs");
	if (r == 0) MC_CHECK(b.len() == n && Bytes((const char *)b.addr(), n) == Bytes((const char *)&ss, n), "a copy of %s gives another address", s);
	Address none; MC_CHECK(!none.isValid(), "an address without text is valid");
	char *c = nullptr; r = pomp_addr_get_real_addr(s, &c);
	std::string d = "old"; int q = Address::getRealAddr(s, d);
	MC_CHECK(q == r && (r || d == c), "getRealAddr of %s returned %d %s instead of %d %s", s, q, d.c_str(), r, c ? c : "");
	if (!r) simk::lib_free(c);
	simk::env.clear();
	count(1);
}

Reg reg([] {
	add("C24", "values", [] { int t = pick(12, "type of the first argument"); int i = t % 3; switch (t / 3) { case 0: c24_rows1(i); break; case 1: c24_rows2(i); break; case 2: c24_rows3(i); break; default: c24_rows4(i); } }, 0, 0);
	add("C24", "formats", c24_formats, 0, 0);
	add("C24", "fds", c24_fds, 0, 0);
	add("C24", "memory", c24_memory, 2, 3);
	add("C24", "server", c24_server_msg, 0, 0);
	add("C24", "server-raw", c24_server_raw, 0, 0);
	add("C24", "server-handlers", c24_server_acts, 0, 0);
	add("C24", "client", c24_client, 0, 0);
	add("C24", "dgram", c24_dgram, 0, 0);
	add("C24", "loop", c24_loop, 0, 0);
	add("C24", "sizes", c24_sizes, 0, 0);
	add("C24", "address", c24_address, 0, 0);
});
} // namespace

/* C20: datagram contexts */
#include "session.h"
using namespace mc; using namespace ses; using simk::cfg;

namespace {
struct Due { Bytes data; Addr from, to; };
struct DG {
	World w; Ctx *x = nullptr; Addr a; bool raw; size_t rb = 4096; int any = 0;  /* 1: bound to any address; 2: and the application wants to know which one */
	std::deque<Due> due; int got = 0, replies = 0;
	int reply = 0;          /* what callbacks do: 0 nothing, 1 answer on the connection, 2 answer to the address, 3 copy the address only */
	struct pomp_conn *conn = nullptr;
	struct Want { Bytes data; Addr to; };
	std::vector<Want> sent; /* accepted sends in order */
	uint32_t rid = 9000;
};
DG *D;

/* the bound address, or the one the datagram was sent to where that is known */
Addr bound(const DG &d)
{
	if (!d.any) return d.a;
	if (d.w.fam == AF_INET) return simk::in4(INADDR_ANY, 5000);
	sockaddr_in6 s6; memcpy(&s6, d.a.data(), sizeof(s6)); s6.sin6_addr = in6addr_any; return Addr((const char *)&s6, sizeof(s6));
}
Addr local_as(const DG &d, const Addr &to) { return d.any == 2 ? to : bound(d); }
void got(Ctx &x, struct pomp_conn *conn, const Bytes &b)
{
	DG &d = *D;
	MC_CHECK(!d.due.empty(), "%s delivered, but nothing more was received", ref::hexs(b));
	Due u = d.due.front(); d.due.pop_front(); d.got++;
	MC_CHECK(b == u.data, "delivered %s instead of %s", ref::hexs(b), ref::hexs(u.data));
	uint32_t len = 0; const sockaddr *p = pomp_conn_get_peer_addr(conn, &len);
	MC_CHECK(p && Addr((const char *)p, len) == u.from, "the peer address is %s instead of %s", ref::hexs(Addr((const char *)p, p ? len : 0)), ref::hexs(u.from));
	len = 0; const sockaddr *l = pomp_conn_get_local_addr(conn, &len);
	MC_CHECK(l && Addr((const char *)l, len) == local_as(d, u.to), "the local address is %s instead of %s", ref::hexs(Addr((const char *)l, l ? len : 0)), ref::hexs(local_as(d, u.to)));
	d.conn = conn;
	if (d.reply == 1 || d.reply == 2) {
		Bytes m; if (d.raw) m = "answer " + std::to_string(d.rid++); else m = mkmsg(d.rid++, 20);
		size_t n = simk::dgrams.size();
		struct pomp_buffer *rb = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = d.raw ? nullptr : pomp_msg_new_with_buffer(rb);
		int r = d.reply == 1 ? (d.raw ? pomp_conn_send_raw_buf(conn, rb) : pomp_conn_send_msg(conn, pm)) : d.raw ? pomp_ctx_send_raw_buf_to(x.p, rb, p, (uint32_t)u.from.size()) : pomp_ctx_send_msg_to(x.p, pm, p, (uint32_t)u.from.size());
		if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(rb);
		note("    answer = %d", r);
		if (r == 0) d.sent.push_back({m, u.from}); else MC_CHECK(simk::faults_injected && simk::dgrams.size() == n, "answering returned %d", r);
		d.replies++;
	}
}
/* the datagram is put into the socket; what must come of it follows from its own content */
void arrive(DG &d, const Bytes &b, const Addr &from, const Addr &to)
{
	Bytes c = b.substr(0, d.rb);
	if (d.raw) { if (!c.empty()) d.due.push_back({c, from, to}); }
	else for (auto &m : wire::deframe(c)) d.due.push_back({m, from, to});
	simk::env_dgram(from, to, b.data(), b.size());
	note("  datagram of %zu bytes arrives: %s", b.size(), ref::hexs(b.substr(0, 40)));
}
void setup(DG &d, int conf, pomp_send_cb_t scb = nullptr)
{
	D = &d; W = &d.w;
	d.w.poll = conf & 1; d.w.fam = conf & 2 ? AF_INET6 : AF_INET;
	begin(d.w); mkloop();
	d.x = &mkctx(DGRAM, d.raw, false, false, d.rb == 4096 ? 0 : d.rb);
	if (scb) MC_CHECK(pomp_ctx_set_send_cb(d.x->p, scb) == 0, "no send callback");
	d.a = addr_of(d.w.fam);
	Addr b = bound(d);
	if (d.any == 2) MC_CHECK(pomp_ctx_set_socket_cb(d.x->p, [](struct pomp_ctx *, int fd, enum pomp_socket_kind, void *) { int on = 1; simk::sock_of(fd)->opts[D->w.fam == AF_INET ? std::make_pair((int)IPPROTO_IP, (int)IP_PKTINFO) : std::make_pair((int)IPPROTO_IPV6, (int)IPV6_RECVPKTINFO)] = Bytes((char *)&on, 4); }) == 0, "no socket callback");
	MC_CHECK(ctx_start(*d.x, b) == 0, "cannot bind");
	d.w.on_event = [&d](Ctx &x, Conn &c, int ev, const struct pomp_msg *m) { MC_CHECK(ev == POMP_EVENT_MSG, "%s event on a datagram context", evname(ev)); (void)c; got(x, c.p, wire::msg_bytes(m)); };
	d.w.on_raw = [&d](Ctx &x, Conn &c, struct pomp_buffer *b) { got(x, c.p, wire::buf_bytes(b)); };
}
void check_sent(DG &d, bool all)
{
	MC_CHECK(simk::dgrams.size() <= d.sent.size(), "%zu datagrams were sent instead of %zu", simk::dgrams.size(), d.sent.size());
	for (size_t i = 0; i < simk::dgrams.size(); i++) {
		MC_CHECK(simk::dgrams[i].data == d.sent[i].data, "datagram %zu is %s instead of %s", i, ref::hexs(simk::dgrams[i].data), ref::hexs(d.sent[i].data));
		MC_CHECK(simk::dgrams[i].to == d.sent[i].to, "datagram %zu was sent to %s instead of %s", i, ref::hexs(simk::dgrams[i].to), ref::hexs(d.sent[i].to));
	}
	if (all) MC_CHECK(simk::dgrams.size() == d.sent.size(), "only %zu of %zu datagrams were sent", simk::dgrams.size(), d.sent.size());
}
void works(DG &d, const Addr &from)
{
	settle();
	MC_CHECK(d.due.empty(), "%zu messages were received but not delivered; next %s", d.due.size(), ref::hexs(d.due.front().data));
	arrive(d, d.raw ? Bytes("last") : mkmsg(8000, 30), from, d.a);
	settle();
	MC_CHECK(d.due.empty(), "a good datagram is not delivered any more");
	uint32_t len = 7;
	if (d.conn) {
		const sockaddr *l = pomp_conn_get_local_addr(d.conn, &len);
		MC_CHECK(l && Addr((const char *)l, len) == bound(d), "the local address is %s outside of a callback", ref::hexs(Addr((const char *)l, l ? len : 0)));
		const sockaddr *p = pomp_conn_get_peer_addr(d.conn, &len); MC_CHECK(!p || !len || p->sa_family == AF_UNSPEC, "there is a peer address outside of a callback"); }
}

/* every sequence of datagrams of all kinds */
void recv_(int n, int nconf, bool few)
{
	DG d; int conf = pick(nconf, "configuration");
	if (nconf == 2) conf *= 3;
	d.raw = pick(2, "raw"); d.any = pick(3, "bound to any address"); d.rb = pick(2, "read buffer") ? 40 : 4096;
	d.reply = few ? 1 : 0;
	setup(d, conf);
	Addr from[2] = { addr_of(d.w.fam, 7), addr_of(d.w.fam, 8) };
	static const int FEW[] = { 0, 3, 4, 5, 6, 9 };
	for (int i = 0; i < n; i++) {
		int kind = few ? FEW[pick(6, "kind")] : pick(14, "kind");
		int who = few || !thorough() ? i & 1 : pick(2, "sender"), now_ = pick(2, "processed");
		uint32_t id = 100 + 10 * i;
		Bytes g = mkmsg(id, 24), l = mkmsg(77, 60), b;
		switch (kind) {
		case 0: b = g; break;
		case 1: b = mkmsg(id); break;
		case 2: b = mkmsg(id) + mkmsg(id + 1, 16); break;
		case 3: b = mkmsg(id) + g.substr(0, 7); break;
		case 4: b = l.substr(0, 30); break;
		case 5: b = l.substr(30); break;
		case 6: b = "hello kernel"; break;
		case 7: b = "PO"; break;
		case 8: b = g.substr(0, 12); break;
		case 9: b = d.rb == 40 ? mkmsg(id, 60) : mkmsg(id, 5000); break;
		case 10: b = ""; break;
		case 11: b = "POM" + g; break;
		case 12: b = "MP" + g.substr(4); break;
		case 13: { Bytes h = mkmsg(id); h[8] = 11; b = h + mkmsg(id + 1, 16); break; }
		}
		arrive(d, b, from[who], d.a);
		if (now_) { process(0); if (b.empty()) process(0); }
	}
	settle();
	works(d, from[0]);
	check_sent(d, true);
	outcome(d.got);
	finish();
}
void recv3() { if (thorough()) recv_(3, 4, false); else recv_(3, 2, false); }
void recv5() { recv_(thorough() ? 5 : 4, 2, true); }

/* sends: one datagram each, to the right address, in order, whatever the kernel answers */
void send_(bool faults)
{
	DG d; int conf = pick(4, "configuration"); d.raw = pick(2, "raw");
	bool cb = pick(2, "send callback");
		struct Acc { DG::Want w; int report = -1; };
	static std::vector<Acc> acc; acc.clear();
	static size_t nrep; nrep = 0;
	setup(d, conf, !cb ? nullptr : (pomp_send_cb_t)[](struct pomp_ctx *, struct pomp_conn *, struct pomp_buffer *buf, uint32_t st, void *, void *) {
		note("    report %x", st);
		MC_CHECK(nrep < acc.size(), "more sends are reported than were accepted");
		Acc &a = acc[nrep++];
		Bytes b = wire::buf_bytes(buf);
		MC_CHECK(b == a.w.data, "report %zu is about %s instead of %s", nrep - 1, ref::hexs(b), ref::hexs(a.w.data));
		a.report = (int)(st & ~POMP_SEND_STATUS_QUEUE_EMPTY);
		MC_CHECK(a.report == POMP_SEND_STATUS_OK || a.report == POMP_SEND_STATUS_ERROR, "send reported with status %x", st);
	});
	cfg.eagain = true; cfg.eintr = true;
	if (faults) { cfg.faults = simk::F_SENDTO | simk::F_READ; cfg.maxfaults = 2; d.w.lossy_ok = true; }
	Addr to[2] = { addr_of(d.w.fam, 7), addr_of(d.w.fam, 8) };
	d.reply = 1;
	int n = thorough() ? 4 : 3; uint32_t id = 1;
	auto flushreplies = [&] { };
	(void)flushreplies;
	/* answers are accepted sends too */
	size_t known = 0;
	auto sync = [&] { for (; known < d.sent.size(); known++) acc.push_back({d.sent[known]}); };
	d.w.on_event = [&](Ctx &x, Conn &c, int, const struct pomp_msg *m) { got(x, c.p, wire::msg_bytes(m)); sync(); };
	d.w.on_raw = [&](Ctx &x, Conn &c, struct pomp_buffer *b) { got(x, c.p, wire::buf_bytes(b)); sync(); };
	for (int i = 0; i < n; i++) {
		int op = pick(6, "operation");
		switch (op) {
		case 0: case 1: case 2: {
			int who = op == 1;
			Bytes m = op == 2 ? (d.raw ? Bytes(3000, 'z') : mkmsg(id++, 3000)) : d.raw ? "send " + std::to_string(id++) : mkmsg(id++, 20);
			{ simk::NoFault nf; }
			size_t n0 = simk::dgrams.size(); int f0 = simk::faults_injected;
			struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = d.raw ? nullptr : pomp_msg_new_with_buffer(b);
			Addr t = to[who];
			int r = d.raw ? pomp_ctx_send_raw_buf_to(d.x->p, b, sa(t), t.size()) : pomp_ctx_send_msg_to(d.x->p, pm, sa(t), t.size());
			std::fill(t.begin(), t.end(), 0); /* the address is the caller's */
			if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(b);
			note("  send of %zu bytes to %d = %d", m.size(), who, r);
			if (r == 0) { d.sent.push_back({m, to[who]}); sync(); }
			else { MC_CHECK(simk::faults_injected > f0, "a send returned %d", r); MC_CHECK(simk::dgrams.size() == n0, "a failed send has sent a datagram"); }
			break; }
		case 3: arrive(d, d.raw ? "recv " + std::to_string(id++) : mkmsg(id++, 20), to[id & 1], d.a); break;
		case 4: process(0); break;
		case 5: { /* without an address there is nowhere to send to */
			Bytes m = d.raw ? Bytes("x") : mkmsg(3); struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = d.raw ? nullptr : pomp_msg_new_with_buffer(b);
			int r = d.raw ? pomp_ctx_send_raw_buf_to(d.x->p, b, nullptr, 0) : pomp_ctx_send_msg_to(d.x->p, pm, nullptr, 0);
			MC_CHECK(r < 0, "a send without an address was accepted");
			r = d.raw ? pomp_ctx_send_raw_buf(d.x->p, b) : pomp_ctx_send_msg(d.x->p, pm);
			MC_CHECK(r < 0, "a send without an address was accepted");
			if (d.conn) { r = d.raw ? pomp_conn_send_raw_buf(d.conn, b) : pomp_conn_send_msg(d.conn, pm); MC_CHECK(r < 0, "an answer outside of a callback was accepted"); }
			if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(b);
			break; }
		}
	}
	settle();
	/* nothing more fails */
	cfg.faults = 0; cfg.eagain = cfg.eintr = false;
	works(d, to[0]);
	settle(); sync();
	if (cb) {
		MC_CHECK(nrep == acc.size(), "%zu of %zu accepted sends were reported", nrep, acc.size());
		std::vector<DG::Want> v; int err = 0;
		for (auto &a : acc) if (a.report == POMP_SEND_STATUS_OK) v.push_back(a.w); else err++;
		MC_CHECK(err <= simk::faults_injected, "%d sends are reported as failed but only %d did", err, simk::faults_injected);
		d.sent = v; check_sent(d, true);
	} else if (!simk::faults_injected) check_sent(d, true);
	else {
		/* what failed while it was queued is missing, the rest is there in order */
		size_t k = 0; int lost = 0;
		for (auto &g : simk::dgrams) { while (k < d.sent.size() && !(d.sent[k].data == g.data && d.sent[k].to == g.to)) { k++; lost++; } MC_CHECK(k < d.sent.size(), "a datagram of %zu bytes was sent that should not be", g.data.size()); k++; }
		lost += (int)(d.sent.size() - k);
		MC_CHECK(lost <= simk::faults_injected, "%d datagrams were lost by %d failures", lost, simk::faults_injected);
	}
	outcome(d.got * 16 + simk::dgrams.size());
	finish();
	acc.clear();
}
void send() { send_(false); }
void errors() { send_(true); }

/* an error that is pending on the socket: an earlier datagram could not be delivered */
void pending()
{
	DG d; int conf = pick(4, "configuration"); d.raw = pick(2, "raw");
	setup(d, conf);
	Addr to = addr_of(d.w.fam, 7);
	int n = thorough() ? 6 : 5; uint32_t id = 1;
	d.w.lossy_ok = true;
	int fd = -1; { for (auto &e : simk::events) if (e.what == "socket") fd = e.fd; }
	Sock *s = simk::sock_of(fd); MC_CHECK(s, "harness: no socket");
	d.reply = 1; int refused = 0;
	for (int i = 0; i < n; i++) {
		switch (pick(4, "operation")) {
		case 0: arrive(d, d.raw ? "recv " + std::to_string(id++) : mkmsg(id++, 20), to, d.a); break;
		case 1: s->so_error = ECONNREFUSED; note("  the socket gets an error"); simk::faults_injected++; break;
		case 2: process(0); break;
		case 3: {
			Bytes m = d.raw ? "send " + std::to_string(id++) : mkmsg(id++, 20);
			size_t n0 = simk::dgrams.size();
			struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = d.raw ? nullptr : pomp_msg_new_with_buffer(b);
			bool e = s->so_error != 0;
			int r = d.raw ? pomp_ctx_send_raw_buf_to(d.x->p, b, sa(to), to.size()) : pomp_ctx_send_msg_to(d.x->p, pm, sa(to), to.size());
			if (pm) pomp_msg_destroy(pm); pomp_buffer_unref(b);
			note("  send = %d", r);
			if (r == 0) d.sent.push_back({m, to}); else { refused++; MC_CHECK(e, "a send returned %d", r); MC_CHECK(simk::dgrams.size() == n0, "a failed send has sent a datagram"); }
			break; }
		}
	}
	works(d, to);
	settle(); check_sent(d, true);
	outcome(d.got * 16 + refused);
	finish();
}
Reg r([] {
	add("C20", "recv", recv3);
	add("C20", "recv-reply", recv5);
	add("C20", "send", send, 2, 2);
	add("C20", "errors", errors, 2, 2);
	add("C20", "pending", pending);
});
}

/* C05, C06: what goes through a stream connection, and its reports */
#include "session.h"
#include <stdarg.h>
using namespace mc; using namespace ses; using simk::cfg;

struct Link { Ctx *x = nullptr; Sock *l = nullptr, *e = nullptr; Conn *c = nullptr; };

/* a context with one connection to a peer of the environment */
static void mklink(Link &k, Type t, bool raw, bool scb, size_t rb = 0, int n = 0)
{
	Addr a = addr_of(W->fam, n);
	if (t == SERVER) {
		k.x = &mkctx(SERVER, raw, scb, false, rb);
		MC_CHECK(ctx_start(*k.x, a) == 0, "cannot listen");
		k.e = simk::env_connect(a);
		MC_CHECK(k.e, "cannot connect to the server");
	} else {
		k.l = simk::env_listen(a);
		k.x = &mkctx(CLIENT, raw, scb, false, rb);
		MC_CHECK(ctx_start(*k.x, a) == 0, "cannot connect");
	}
	for (int i = 0; i < 8 && !(k.c = k.x->last()); i++) { process(k.c ? 0 : 1); }
	MC_CHECK((k.c = k.x->last()), "the connection is not announced");
	if (t == CLIENT) { k.e = simk::env_accept(k.l); MC_CHECK(k.e, "no connection arrived"); }
	MC_CHECK(k.e->refs <= 0 || k.c->s->peer == k.e || !k.c->live, "connected to something else");
	k.c->s->cap = 1 << 20;
}
/* until everything accepted is with the peer */
static void drain(Link &k, int max = 60)
{
	for (int i = 0; i < max; i++) {
		process(0);
		if (k.e->refs > 0) peer_read(k.e, k.c->acc);
		if (W->wire[k.e].size() == k.c->acc.size()) break;
		MC_CHECK(i < max - 1, "only %zu of %zu accepted bytes ever reached the peer", W->wire[k.e].size(), k.c->acc.size());
	}
	size_t was = k.c->acc.size();
	settle();
	if (k.c->acc.size() != was) { drain(k, max); return; }
	if (k.x->sendcb && k.c->live) MC_CHECK(k.c->nextrep == k.c->sends.size(), "%zu sends that were handed over were never reported", k.c->sends.size() - k.c->nextrep);
}
static Bytes payload(bool raw, uint32_t id, size_t n)
{
	if (!raw) return mkmsg(id, n);
	Bytes b; for (size_t i = 0; i < n; i++) b += (char)(id * 37 + i * 7 + (i >> 8));
	return b;
}
static void setup(bool any_impl = true, bool deviations = true)
{
	W->poll = any_impl ? pick(2, "loop implementation") : false;
	static const int fams[] = {AF_INET, AF_UNIX};
	W->fam = fams[pick(2, "family")];
	begin(*W);
	mkloop();
}

/* ---- C05: sends, cut by the kernel ---- */
static void c05_send_ops(bool raw, bool scb, int depth, bool small)
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	static const int fams[] = {AF_INET, AF_UNIX};
	w.fam = fams[pick(2, "family")];
	begin(w); mkloop();
	Type t = pick(2, "side") ? CLIENT : SERVER;
	cfg.cap = 64;
	if (w.fam == AF_UNIX) cfg.skbmax = 24;
	Link k; mklink(k, t, raw, scb);
	cfg.partial = cfg.eagain = cfg.eintr = true;
	uint32_t id = 1;
	for (int i = 0; i < depth; i++) {
		switch (pick(6, "operation")) {
		case 0: csend(*k.c, payload(raw, id++, 13)); break;
		case 1: csend(*k.c, payload(raw, id++, small ? 12 : 64)); break;
		case 2: csend(*k.c, payload(raw, id++, 150)); break;
		case 3: process(0); break;
		case 4: note("  the peer drains 20 bytes"); peer_read(k.e, k.c->acc, 20); break;
		case 5: note("  the peer drains everything"); peer_read(k.e, k.c->acc); process(0); break;
		}
		if (!k.c->live) break;
	}
	MC_CHECK(k.c->live, "the connection ended without a reason");
	drain(k);
	simk::env_close(k.e);
	finish();
	outcome(k.c->acc.size() * 131 + k.c->sends.size());
}
static void c05_send_msg() { c05_send_ops(false, false, thorough() ? 6 : 4, false); }
static void c05_send_raw() { c05_send_ops(true, false, thorough() ? 5 : 4, true); }

/* sends from inside callbacks, while earlier data is queued */
struct Plan { int n[5] = {0, 0, 0, 0, 0}; size_t sz[5]; bool done[5] = {0}; };
static void c05_callbacks_(bool scb)
{
	World w; W = &w;
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Type t = pick(2, "side") ? CLIENT : SERVER;
	size_t cap[] = {40, 1000};
	cfg.cap = cap[pick(2, "capacity")];
	uint32_t id = 1;
	bool armed[5] = {true, true, true, true, true};
	auto burst = [&](Conn &c, int kind, const char *what) {
		if (!armed[kind]) return;
		armed[kind] = false;
		static const size_t S[][2] = {{0, 0}, {13, 0}, {100, 0}, {13, 100}, {100, 13}};
		const size_t *s = S[thorough() ? pick(5, what) : (int[]){0, 3, 4}[pick(3, what)]];
		for (int i = 0; i < 2; i++) if (s[i]) csend(c, payload(c.x->raw, id++, s[i]));
	};
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) { burst(c, ev == POMP_EVENT_CONNECTED ? 0 : ev == POMP_EVENT_MSG ? 1 : 2, ev == POMP_EVENT_CONNECTED ? "sends when connected" : ev == POMP_EVENT_MSG ? "sends in a message" : "sends in the disconnection"); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { burst(c, 1, "sends in raw data"); };
	w.on_send = [&](Ctx &, Conn &c, struct pomp_buffer *, uint32_t) { if (c.live && !c.shut) burst(c, 3, "sends in a report"); };
	Link k; mklink(k, t, raw, scb);
	cfg.partial = cfg.eagain = true; cfg.order = true;
	burst(*k.c, 4, "sends outside");
	peer_send(k.e, payload(raw, 900, 20), raw);
	peer_send(k.e, payload(raw, 901, 30), raw);
	if (pick(2, "drained in between")) peer_read(k.e, k.c->acc);
	process(0);
	drain(k);
	MC_CHECK(w.rx[k.c->s].msgs.empty() && w.rx[k.c->s].raw.empty(), "data that arrived was not delivered");
	/* what is sent while the connection is being closed is a prefix of the accepted */
	simk::env_shutdown_wr(k.e);
	settle();
	MC_CHECK(!k.c->live, "the end of the connection was not noticed");
	peer_read(k.e, k.c->acc);
	simk::env_close(k.e);
	finish();
}
static void c05_callbacks() { c05_callbacks_(true); }

/* ---- C05: received data, cut at every place ---- */
static void c05_receive()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Type t = pick(2, "side") ? CLIENT : SERVER;
	static const size_t RB[] = {4096, 1, 5, 12, 13, 31};
	size_t rb = RB[pick(6, "read buffer")];
	Link k; mklink(k, t, raw, false, rb);
	static const size_t SETS[][4] = {{12, 13, 40, 12}, {30, 12, 12, 12}, {13, 61, 0, 0}};
	const size_t *set = SETS[pick(3, "messages")];
	Bytes all;
	for (int i = 0; i < 4; i++) if (set[i]) { Bytes m = payload(raw, 100 + i, set[i]); peer_expect(k.e, m, raw); all += m; }
	size_t a = pick((int)all.size(), "first cut");
	size_t b = thorough() ? a + pick((int)(all.size() - a), "second cut") : a;
	bool two = pick(2, "both at once");
	peer_bytes(k.e, all.substr(0, a));
	if (a && !two) process(0);
	peer_bytes(k.e, all.substr(a, b - a));
	if (b > a && !two) process(0);
	peer_bytes(k.e, all.substr(b));
	settle();
	Rx &r = w.rx[k.c->s];
	MC_CHECK(r.msgs.empty() && r.raw.empty(), "%zu messages (%zu raw bytes) that arrived were not delivered", r.msgs.size(), r.raw.size());
	count(1);
	simk::env_close(k.e);
	finish();
}
/* the same with the kernel's freedom: short reads, interrupted and refused ones */
static void c05_receive_dev()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	Type t = pick(2, "side") ? CLIENT : SERVER;
	static const size_t RB[] = {4096, 20, 4};
	size_t rb = RB[pick(3, "read buffer")];
	cfg.skbmax = 10;
	Link k; mklink(k, t, raw, false, rb);
	cfg.partial = cfg.eagain = cfg.eintr = cfg.order = true;
	Bytes all; for (int i = 0; i < 3; i++) { Bytes m = payload(raw, 100 + i, 12 + 9 * i); peer_expect(k.e, m, raw); all += m; }
	static const int CUT[] = {0, 3, 12, 20, 33};
	int c = CUT[pick(5, "cut")];
	peer_bytes(k.e, all.substr(0, c)); if (c) process(0);
	peer_bytes(k.e, all.substr(c));
	if (pick(2, "then closed")) { simk::env_close(k.e); settle(); MC_CHECK(!k.c->live, "the end of the connection was not noticed"); }
	else { settle(); Rx &r = w.rx[k.c->s]; MC_CHECK(r.msgs.empty() && r.raw.empty(), "data that arrived was not delivered"); simk::env_close(k.e); }
	finish();
}
/* big messages and garbage between messages */
static void c05_big()
{
	World w; W = &w;
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	cfg.partial = true;
	static const size_t N[] = {4095, 4096, 4097, 8191, 12289};
	size_t n = N[pick(5, "size")];
	cfg.cap = pick(2, "capacity") ? 5000 : 1 << 20;
	Link k; mklink(k, SERVER, raw, true);
	Bytes m1 = payload(raw, 1, n), m2 = payload(raw, 2, 12), m3 = payload(raw, 3, n);
	csend(*k.c, m1); csend(*k.c, m2); csend(*k.c, m3);
	drain(k);
	for (const Bytes *m : {&m1, &m2, &m3}) {
		peer_expect(k.e, *m, raw);
		for (size_t o = 0; o < m->size();) { size_t r = peer_bytes(k.e, m->substr(o)); o += r; process(0); }
	}
	settle();
	Rx &r = w.rx[k.c->s];
	MC_CHECK(r.msgs.empty() && r.raw.empty(), "data that arrived was not delivered");
	simk::env_close(k.e);
	finish();
}
/* both ends are the library: every message comes back */
static void c05_echo()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(3, "family") == 0 ? AF_INET : AF_UNIX;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	cfg.cap = pick(2, "capacity") ? 50 : 1000;
	cfg.skbmax = 20;
	Addr a = addr_of(w.fam);
	Ctx &s = mkctx(SERVER, raw, true, false, 30), &c = mkctx(CLIENT, raw, true, false, 30);
	MC_CHECK(ctx_start(s, a) == 0 && ctx_start(c, a) == 0, "cannot start");
	settle();
	for (int i = 0; i < 4 && !(c.last() && s.last()); i++) process(1);
	Conn *cc = c.last(), *sc = s.last();
	MC_CHECK(cc && sc && cc->s->peer == sc->s, "not connected to each other");
	Bytes back;
	w.on_event = [&](Ctx &x, Conn &k, int ev, const struct pomp_msg *m) { if (ev != POMP_EVENT_MSG) return; if (&x == &s) csend(k, wire::msg_bytes(m)); else back += wire::msg_bytes(m); };
	w.on_raw = [&](Ctx &x, Conn &k, struct pomp_buffer *b) { if (&x == &s) csend(k, wire::buf_bytes(b), b); else back += wire::buf_bytes(b); };
	cfg.partial = cfg.eagain = cfg.order = true;
	Bytes out; uint32_t id = 1;
	int n = thorough() ? 4 : 3;
	for (int i = 0; i < n; i++) {
		static const size_t S[] = {12, 33, 120};
		Bytes m = payload(raw, id++, S[pick(3, "size")]);
		csend(*cc, m); out += m;
		if (pick(2, "processed in between")) process(0);
	}
	settle();
	MC_CHECK(back == out, "%zu of %zu bytes came back: %s instead of %s", back.size(), out.size(), ref::hexs(back), ref::hexs(out));
	/* nothing more comes */
	finish();
}
/* a buffer that was accepted for sending cannot be changed any more, what was received stays as it is */
static void c05_shared()
{
	World w; W = &w;
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	cfg.cap = 32;
	Link k; mklink(k, SERVER, true, pick(2, "send callback"));
	struct pomp_buffer *kept[8]; Bytes content[8]; int nk = 0;
	w.on_raw = [&](Ctx &, Conn &, struct pomp_buffer *b) { if (nk < 8 && pick(2, "kept")) { pomp_buffer_ref(b); kept[nk] = b; content[nk++] = wire::buf_bytes(b); } };
	Bytes d = payload(true, 5, 80);
	struct pomp_buffer *b = pomp_buffer_new_with_data(d.data(), d.size());
	csend(*k.c, d, b);
	bool full = W->wire[k.e].size() == d.size();
	int r = pomp_buffer_append_data(b, "xyz", 3);
	if (!full) MC_CHECK(r == -EPERM, "a buffer queued for sending could be changed (%d)", r);
	r = pomp_buffer_set_len(b, 3);
	if (!full) MC_CHECK(r == -EPERM, "a buffer queued for sending could be cut (%d)", r);
	bool early = pick(2, "released early");
	if (early) pomp_buffer_unref(b);
	for (int i = 0; i < 3; i++) peer_send(k.e, payload(true, 50 + i, 10 + i), true), pick(2, "processed") ? (process(0), 0) : 0;
	drain(k);
	if (!early) { pomp_buffer_unref(b); }
	simk::env_close(k.e);
	for (int i = 0; i < nk; i++) MC_CHECK(wire::buf_bytes(kept[i]) == content[i], "a received buffer that is kept has changed: %s instead of %s", ref::hexs(wire::buf_bytes(kept[i])), ref::hexs(content[i]));
	finish();
	for (int i = 0; i < nk; i++) { MC_CHECK(wire::buf_bytes(kept[i]) == content[i], "a received buffer that is kept has changed"); pomp_buffer_unref(kept[i]); }
}
/* sends that are refused leave no trace */
/* messages made from a format by the sending functions themselves */
static int conn_sendv(struct pomp_conn *c, uint32_t id, const char *f, ...) { va_list ap; va_start(ap, f); int r = pomp_conn_sendv(c, id, f, ap); va_end(ap); return r; }
static int ctx_sendv(struct pomp_ctx *c, uint32_t id, const char *f, ...) { va_list ap; va_start(ap, f); int r = pomp_ctx_sendv(c, id, f, ap); va_end(ap); return r; }
static void c05_formatted()
{
	World w; W = &w; setup();
	Type t = pick(2, "side") ? CLIENT : SERVER;
	cfg.cap = 64; if (w.fam == AF_UNIX) cfg.skbmax = 24;
	Link k; mklink(k, t, false, true);
	cfg.partial = cfg.eagain = true;
	for (uint32_t i = 0; i < 2; i++) {
		int how = pick(4, "function"), what = pick(4, "message");
		Conn &c = *k.c; struct pomp_conn *p = c.p; struct pomp_ctx *x = k.x->p;
		std::string text(what == 1 ? 90 : 3 + i, 'a' + i); const char *s = text.c_str();
		auto call = [&](const char *f, auto... v) { switch (how) { case 0: return pomp_conn_send(p, 70 + i, f, v...); case 1: return conn_sendv(p, 70 + i, f, v...); case 2: return pomp_ctx_send(x, 70 + i, f, v...); default: return ctx_sendv(x, 70 + i, f, v...); } };
		if (what < 2) csend(c, ref::message(70 + i, {ref::vu(ref::U32, i * 1000), ref::vs(text), ref::vi(ref::I8, -(int)i)}), nullptr, [&] { return call("%u%s%hhd", i * 1000, s, -(int)i); });
		else if (what == 2) csend(c, ref::message(70 + i, {}), nullptr, [&] { return call(nullptr); });
		else { uint64_t w0 = c.s->nwritten; int r = call("%u%q%s", i, s, s); MC_CHECK(r < 0, "sending with an invalid format returned %d", r); MC_CHECK(c.s->nwritten == w0, "a send with an invalid format wrote something"); }
		if (pick(2, "process")) process(0);
	}
	drain(k);
	simk::env_close(k.e);
	finish();
}
static void c05_refused()
{
	World w; W = &w;
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	cfg.cap = 40;
	Link k; mklink(k, pick(2, "side") ? CLIENT : SERVER, false, true);
	uint32_t id = 1;
	csend(*k.c, mkmsg(id++, pick(2, "size") ? 100 : 13));
	cfg.faults = simk::F_MALLOC | simk::F_WRITE; cfg.maxfaults = 2; cfg.partial = true;
	int err = 0;
	w.lossy_ok = true; w.sends_unreported_ok = true; k.c->lossy = true;
	for (int i = 0; i < 3; i++) { if (!k.c->live) break; Bytes m = mkmsg(id++, i == 1 ? 70 : 14); int f0 = simk::faults_injected; struct pomp_msg *lm = pomp_msg_new(); if (!lm) continue; pomp_msg_destroy(lm);
		cfg.faults = 0; struct pomp_buffer *pb = pomp_buffer_new_with_data(m.data(), m.size()); struct pomp_msg *pm = pomp_msg_new_with_buffer(pb); pomp_buffer_unref(pb); cfg.faults = simk::F_MALLOC | simk::F_WRITE;
		uint64_t w0 = k.c->s->nwritten;
		int r = pomp_conn_send_msg(k.c->p, pm);
		note("  send %zu bytes = %d", m.size(), r);
		if (r == 0) { k.c->acc += m; k.c->sends.push_back({m, nullptr, (uint64_t)k.c->acc.size()}); }
		else { err++; MC_CHECK(simk::faults_injected > f0 || k.c->s->wrshut, "send failed with %d without a reason", r); MC_CHECK(k.c->s->nwritten == w0, "a send that failed with %d left %llu bytes on the connection", r, (unsigned long long)(k.c->s->nwritten - w0)); }
		update_all();
		pomp_msg_destroy(pm);
		if (pick(2, "processed")) { cfg.faults = 0; process(0); peer_read(k.e, k.c->acc); cfg.faults = simk::F_MALLOC | simk::F_WRITE; }
	}
	cfg.faults = 0;
	for (int i = 0; i < 30; i++) { process(0); peer_read(k.e, k.c->acc); }
	if (k.c->live) MC_CHECK(W->wire[k.e].size() == k.c->acc.size(), "only %zu of %zu accepted bytes reached the peer", W->wire[k.e].size(), k.c->acc.size());
	simk::env_close(k.e);
	finish();
}

/* ---- C06 ---- */
static void c06_ops()
{
	World w; W = &w;
	w.poll = pick(2, "loop implementation");
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	cfg.cap = 40;
	Link k; mklink(k, pick(2, "side") ? CLIENT : SERVER, raw, true);
	cfg.partial = cfg.eagain = true;
	uint32_t id = 1;
	int n = thorough() ? 6 : 5;
	bool open = true;
	for (int i = 0; i < n; i++) {
		Conn &c = *k.c;
		int op = pick(9, "operation");
		switch (op) {
		case 0: case 1: if (c.live) { Bytes m = payload(raw, id++, op ? 70 : 13); int s = c.shut; if (s) { struct pomp_buffer *b = pomp_buffer_new_with_data(m.data(), m.size()); int r; if (raw) r = pomp_conn_send_raw_buf(c.p, b); else { struct pomp_msg *lm = pomp_msg_new_with_buffer(b); r = pomp_conn_send_msg(c.p, lm); pomp_msg_destroy(lm); } pomp_buffer_unref(b); note("  send after disconnect = %d", r); MC_CHECK(r < 0, "a send on a connection that was disconnected was accepted"); } else if (open) csend(c, m); else prune(); } else prune(); break;
		case 2: process(0); break;
		case 3: if (open) peer_read(k.e, c.acc, 15); else prune(); break;
		case 4: if (open) peer_read(k.e, c.acc); else prune(); process(0); break;
		case 5: if (!c.live || c.shut) prune(); { update_all(); c.shut = true; int r = pomp_conn_disconnect(c.p); note("  disconnect = %d", r); MC_CHECK(r == 0, "pomp_conn_disconnect returned %d", r); } break;
		case 6: if (!open) prune(); note("  the peer closes"); open = false; simk::env_close(k.e); break;
		case 7: if (!open) prune(); note("  the peer resets"); c.lossy = true; open = false; simk::env_reset(k.e); break;
		case 8: if (k.x->running) ctx_stop(*k.x); else prune(); break;
		}
	}
	Conn &c = *k.c;
	for (int i = 0; i < 30; i++) { process(0); if (open) peer_read(k.e, c.acc); }
	if (c.live && open && !c.shut) { MC_CHECK(W->wire[k.e].size() == c.acc.size(), "accepted bytes are missing"); MC_CHECK(c.nextrep == c.sends.size(), "%zu sends were never reported", c.sends.size() - c.nextrep); }
	if (open) { simk::env_close(k.e); }
	settle();
	MC_CHECK(!c.live, "the end of the connection was not noticed");
	MC_CHECK(c.nextrep == c.sends.size(), "the connection ended but %zu accepted sends were never reported", c.sends.size() - c.nextrep);
	finish();
}
/* the same from inside the callbacks */
static void c06_inner()
{
	World w; W = &w;
	w.fam = pick(2, "family") ? AF_UNIX : AF_INET;
	begin(w); mkloop();
	bool raw = pick(2, "raw");
	cfg.cap = 40;
	uint32_t id = 1;
	int budget_ = thorough() ? 4 : 3;
	Link k;
	bool open = true;
	auto act = [&](Conn &c, const char *what) {
		if (budget_ <= 0) return;
		int op = pick(6, what);
		if (op) budget_--;
		switch (op) {
		case 1: case 2: {
			Bytes m = payload(raw, id++, op == 2 ? 70 : 13);
			if (c.live && !c.shut && !c.s->wrshut && open) csend(c, m);
			break; }
		case 3: if (c.live && !c.shut) { update_all(); c.shut = true; int r = pomp_conn_disconnect(c.p); note("  disconnect = %d", r); } break;
		case 4: ctx_stop(*c.x); break;
		case 5: if (open && k.e) { note("  the peer closes"); open = false; c.lossy = true; simk::env_close(k.e); } break;
		}
	};
	w.on_event = [&](Ctx &, Conn &c, int ev, const struct pomp_msg *) { act(c, ev == POMP_EVENT_CONNECTED ? "in CONNECTED" : ev == POMP_EVENT_MSG ? "in MSG" : "in DISCONNECTED"); };
	w.on_raw = [&](Ctx &, Conn &c, struct pomp_buffer *) { act(c, "in raw data"); };
	w.on_send = [&](Ctx &, Conn &c, struct pomp_buffer *, uint32_t) { act(c, "in a report"); };
	mklink(k, pick(2, "side") ? CLIENT : SERVER, raw, true);
	cfg.partial = cfg.order = true;
	Conn &c = *k.c;
	if (c.live && !c.shut && open) csend(c, payload(raw, id++, 13));
	if (c.live && !c.shut && open && pick(2, "second")) csend(c, payload(raw, id++, 60));
	if (open) peer_send(k.e, payload(raw, 900, 14), raw);
	for (int i = 0; i < 12; i++) { process(0); if (open) peer_read(k.e, c.acc); }
	settle();
	if (c.live && open && !c.shut) { MC_CHECK(W->wire[k.e].size() == c.acc.size(), "accepted bytes are missing"); MC_CHECK(c.nextrep == c.sends.size(), "%zu sends were never reported", c.sends.size() - c.nextrep); }
	budget_ = 0;
	if (open) { open = false; c.lossy = true; simk::env_close(k.e); }
	settle();
	MC_CHECK(!c.live, "the end of the connection was not noticed");
	MC_CHECK(c.nextrep == c.sends.size(), "the connection ended but %zu accepted sends were never reported", c.sends.size() - c.nextrep);
	finish();
}

static Reg r([] {
	add("C05", "sends", c05_send_msg, 1, 2);
	add("C05", "rawsends", c05_send_raw, 1, 2);
	add("C05", "callbacks", c05_callbacks, 1, 2);
	add("C05", "receive", c05_receive);
	add("C05", "reads", c05_receive_dev, 2, 3);
	add("C05", "big", c05_big, 2, 3);
	add("C05", "echo", c05_echo, 1, 2);
	add("C05", "shared", c05_shared);
	add("C05", "formatted", c05_formatted, 1, 2);
	add("C05", "refused", c05_refused, 2, 3);
	add("C06", "ops", c06_ops, 1, 2);
	add("C06", "inner", c06_inner, 1, 2);
});

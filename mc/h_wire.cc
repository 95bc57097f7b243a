/* C01-C04: wire format, decoding, hostile payloads, stream framing */
#include "wire.h"
using namespace wire;
using namespace mc;
using ref::hexs;

/* ------------------------------------------------------------------ C01 */
static const uint32_t IDS[] = { 0, 1, 0x7f, 0x80, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff };

static void finish_check(struct pomp_msg *m, uint32_t id, const std::vector<Val> &vs, const char *how)
{
	Bytes got = msg_bytes(m), want = ref::message(id, vs);
	MC_CHECK(got == want, "%s wrote %s instead of %s", how, hexs(got), hexs(want));
	MC_CHECK(pomp_msg_get_id(m) == id, "%s: message id %u instead of %u", how, pomp_msg_get_id(m), id);
}
static void typed(uint32_t id, const std::vector<Val> &vs)
{
	struct pomp_msg *m = pomp_msg_new();
	int r = pomp_msg_init(m, id);
	MC_CHECK(r == 0, "pomp_msg_init %d", r);
	struct pomp_encoder *e = pomp_encoder_new();
	r = pomp_encoder_init(e, m);
	MC_CHECK(r == 0, "pomp_encoder_init %d", r);
	for (auto &v : vs) { r = write_typed(e, v); MC_CHECK(r == 0, "typed writer of type %d refused a value: %d", v.t, r); }
	r = pomp_msg_finish(m);
	MC_CHECK(r == 0, "pomp_msg_finish %d", r);
	finish_check(m, id, vs, "typed writers");
	pomp_encoder_destroy(e);
	pomp_msg_destroy(m);
}

/* every interesting value of each type alone */
static std::vector<Val> boundary(ref::Type t)
{
	std::vector<Val> o;
	std::set<uint64_t> s;
	auto bits = [&](int w) {
		for (int k = 0; k < w; k++) for (int d = -2; d <= 2; d++) { uint64_t x = (1ull << k) + (uint64_t)d; if (w < 64) x &= (1ull << w) - 1; s.insert(x); uint64_t y = 0 - x; if (w < 64) y &= (1ull << w) - 1; s.insert(y); }
		uint64_t m = w < 64 ? (1ull << w) - 1 : ~0ull;
		for (int k = 0; k < 256; k++) { s.insert((0x0101010101010101ull * k) & m); for (int p = 0; p < w; p += 8) s.insert(((uint64_t)k << p) & m); }
	};
	switch (t) {
	case ref::I8: for (int i = -128; i < 128; i++) o.push_back(ref::vi(t, i)); break;
	case ref::U8: for (int i = 0; i < 256; i++) o.push_back(ref::vu(t, i)); break;
	case ref::I16: for (int i = -32768; i < 32768; i++) o.push_back(ref::vi(t, i)); break;
	case ref::U16: for (int i = 0; i < 65536; i++) o.push_back(ref::vu(t, i)); break;
	case ref::I32: bits(32); for (uint64_t x : s) o.push_back(ref::vi(t, (int32_t)(uint32_t)x)); break;
	case ref::U32: bits(32); for (uint64_t x : s) o.push_back(ref::vu(t, x)); break;
	case ref::I64: bits(64); for (uint64_t x : s) o.push_back(ref::vi(t, (int64_t)x)); break;
	case ref::U64: bits(64); for (uint64_t x : s) o.push_back(ref::vu(t, x)); break;
	case ref::F32: bits(32); for (uint64_t x : s) { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); o.push_back(ref::vf(f)); } break;
	case ref::F64: bits(64); for (uint64_t x : s) { double d; memcpy(&d, &x, 8); o.push_back(ref::vd(d)); } break;
	case ref::STR: case ref::BUF: {
		std::set<size_t> ls;
		for (size_t l = 0; l <= 300; l++) ls.insert(l);
		for (size_t b : {512u, 1024u, 4096u, 16384u, 32768u, 65536u}) for (int d = -20; d <= 20; d++) ls.insert(b + d);
		if (t == ref::BUF) for (size_t l : {131072u, 200000u, 2097151u, 2097152u}) ls.insert(l);
		for (size_t l : ls) {
			if (t == ref::STR && l > 65534) continue;
			Bytes b(l, 0); for (size_t k = 0; k < l; k++) b[k] = (char)(t == ref::STR ? 1 + (k * 7 + l) % 255 : (k * 11 + l));
			o.push_back(t == ref::STR ? ref::vs(b) : ref::vb(b));
		}
		break;
	}
	default: break;
	}
	return o;
}
static const ref::Type TYPES[] = { ref::I8, ref::U8, ref::I16, ref::U16, ref::I32, ref::U32, ref::I64, ref::U64, ref::STR, ref::BUF, ref::F32, ref::F64 };

static void c01_values()
{
	ref::Type t = TYPES[pick(12, "type")];
	auto vals = boundary(t);
	int parts = 8, part = pick(parts, "part");
	uint64_t n = 0;
	for (size_t k = part; k < vals.size(); k += parts) {
		size_t nid = vals.size() > 2000 ? 1 : 8;
		for (size_t i = 0; i < nid; i++) { typed(IDS[(k + i) % 8], { vals[k] }); n++; }
		if ((n & 255) == 0) heartbeat();
	}
	count(n);
}

typedef int (*msgw)(struct pomp_msg *, uint32_t, const char *, ...);
typedef int (*encw)(struct pomp_encoder *, const char *, ...);

static void all_interfaces(uint32_t id, const std::vector<const Item *> &seq)
{
	std::vector<Val> vs; std::string fmt; std::vector<uint64_t> gp; std::vector<double> fp; ref::Args a; std::vector<Exact> keep; keep.reserve(64);
	std::vector<std::string> texts;
	for (auto *i : seq) {
		vs.push_back(i->v); fmt += i->wfmt; push_arg(gp, fp, a, i->v, keep);
		texts.push_back(i->text); if (i->hastext2) texts.push_back(i->text2);
	}
	typed(id, vs);
	Exact f(fmt, true);
	const char *fp0 = f.p;
	int r;
	struct pomp_msg *m = pomp_msg_new();
	va_list ap;
	{ a.fill(&ap); r = pomp_msg_writev(m, id, fp0, ap); MC_CHECK(r == 0, "pomp_msg_writev(\"%s\") = %d", fmt.c_str(), r); finish_check(m, id, vs, "pomp_msg_writev"); pomp_msg_clear(m); }
	{ struct pomp_encoder *e = pomp_encoder_new(); pomp_msg_init(m, id); pomp_encoder_init(e, m); a.fill(&ap); r = pomp_encoder_writev(e, fp0, ap);
	  MC_CHECK(r == 0, "pomp_encoder_writev(\"%s\") = %d", fmt.c_str(), r); pomp_msg_finish(m); finish_check(m, id, vs, "pomp_encoder_writev"); pomp_encoder_destroy(e); pomp_msg_clear(m); }
	gp.resize(8); fp.resize(8);
	{ r = ((msgw)pomp_msg_write)(m, id, fp0, gp[0], gp[1], gp[2], fp[0], fp[1], fp[2], fp[3], fp[4], fp[5], fp[6], fp[7], gp[3], gp[4], gp[5], gp[6], gp[7]);
	  MC_CHECK(r == 0, "pomp_msg_write(\"%s\") = %d", fmt.c_str(), r); finish_check(m, id, vs, "pomp_msg_write"); pomp_msg_clear(m); }
	{ struct pomp_encoder *e = pomp_encoder_new(); pomp_msg_init(m, id); pomp_encoder_init(e, m);
	  r = ((encw)pomp_encoder_write)(e, fp0, gp[0], gp[1], gp[2], gp[3], fp[0], fp[1], fp[2], fp[3], fp[4], fp[5], fp[6], fp[7], gp[4], gp[5], gp[6], gp[7]);
	  MC_CHECK(r == 0, "pomp_encoder_write(\"%s\") = %d", fmt.c_str(), r); pomp_msg_finish(m); finish_check(m, id, vs, "pomp_encoder_write"); pomp_encoder_destroy(e); pomp_msg_clear(m); }
	/* text arguments, in memory of their exact size, in an array of its exact size */
	std::vector<Exact> tk; tk.reserve(texts.size());
	for (auto &t : texts) tk.emplace_back(t, true);
	const char **argv = (const char **)malloc(sizeof(char *) * (texts.size() ? texts.size() : 1));
	for (size_t k = 0; k < texts.size(); k++) argv[k] = tk[k].p;
	{ r = pomp_msg_write_argv(m, id, fp0, (int)texts.size(), argv);
	  MC_CHECK(r == 0, "pomp_msg_write_argv(\"%s\") = %d", fmt.c_str(), r); finish_check(m, id, vs, "pomp_msg_write_argv"); pomp_msg_clear(m); }
	{ struct pomp_encoder *e = pomp_encoder_new(); pomp_msg_init(m, id); pomp_encoder_init(e, m);
	  r = pomp_encoder_write_argv(e, fp0, (int)texts.size(), argv);
	  MC_CHECK(r == 0, "pomp_encoder_write_argv(\"%s\") = %d", fmt.c_str(), r); pomp_msg_finish(m); finish_check(m, id, vs, "pomp_encoder_write_argv"); pomp_encoder_destroy(e); pomp_msg_clear(m); }
	/* one argument missing, at the end or anywhere as NULL */
	if (!texts.empty()) {
		r = pomp_msg_write_argv(m, id, fp0, (int)texts.size() - 1, argv);
		MC_CHECK(r < 0, "pomp_msg_write_argv(\"%s\") accepted with %zu of %zu texts", fmt.c_str(), texts.size() - 1, texts.size()); pomp_msg_clear(m);
		for (size_t k = 0; k < texts.size(); k++) {
			const char *s = argv[k]; argv[k] = nullptr;
			r = pomp_msg_write_argv(m, id, fp0, (int)texts.size(), argv);
			MC_CHECK(r < 0, "pomp_msg_write_argv(\"%s\") accepted with text %zu null", fmt.c_str(), k); pomp_msg_clear(m);
			argv[k] = s;
		}
	}
	free(argv);
	pomp_msg_destroy(m);
}
static void c01_sequences()
{
	auto &I = items();
	int n = (int)I.size(), maxl = 4;
	int a = pick(n + 1, "first");
	if (a == n) { all_interfaces(5, {}); count(1); return; }
	int b = pick(n + 1, "second");
	uint64_t k = 0;
	if (b == n) { all_interfaces(IDS[a % 8], { &I[a] }); count(1); return; }
	all_interfaces(IDS[b % 8], { &I[a], &I[b] }); k++;
	for (int c = 0; c < n; c++) {
		all_interfaces(IDS[c % 8], { &I[a], &I[b], &I[c] }); k++;
		if (maxl > 3) for (int d = thorough() ? 0 : c % 3; d < n; d += thorough() ? 1 : 3) { all_interfaces(IDS[d % 8], { &I[a], &I[b], &I[c], &I[d] }); k++; }
		heartbeat();
	}
	count(k);
}

/* reference grammar of formats; returns -1 don't care, 0 invalid, 1 valid; appends the kinds read before the error */
static int parse_fmt(const std::string &f, bool read, std::vector<int> *kinds)
{
	size_t p = 0; auto at = [&](size_t k) { return k < f.size() ? f[k] : '\0'; };
	while (p < f.size()) {
		if (f[p] != '%') return 0;
		p++;
		std::string fl; bool m = false;
		for (;;) {
			if (at(p) == 'l') { if (at(p + 1) == 'l') { fl += 'L'; p += 2; } else { fl += 'l'; p++; } }
			else if (at(p) == 'h') { if (at(p + 1) == 'h') { fl += 'H'; p += 2; } else { fl += 'h'; p++; } }
			else if (read && at(p) == 'm') { m = true; p++; }
			else break;
		}
		char c = at(p); p++;
		if (fl.size() > 1) return -1;
		if (m && c != 's') return -1;
		if (!fl.empty() && strchr("sp", c) && c) return -1;
		char q = fl.empty() ? 0 : fl[0];
		switch (c) {
		case 'd': case 'i': kinds->push_back(q == 'L' || q == 'l' ? ref::I64 : q == 'H' ? ref::I8 : q == 'h' ? ref::I16 : ref::I32); break;
		case 'u': kinds->push_back(q == 'L' || q == 'l' ? ref::U64 : q == 'H' ? ref::U8 : q == 'h' ? ref::U16 : ref::U32); break;
		case 's': if (read && !m) return 0; kinds->push_back(ref::STR); break;
		case 'p': if (at(p) != '%' || at(p + 1) != 'u') return 0; p += 2; kinds->push_back(ref::BUF); break;
		case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': if (q && q != 'l') return 0; kinds->push_back(q ? ref::F64 : ref::F32); break;
		case 'x': if (q) return 0; return -1;
		default: return 0;
		}
	}
	return 1;
}
static const char *PIECES[] = { "%d", "%u", "%hhu", "%hi", "%llu", "%ld", "%s", "%p%u", "%f", "%lg", "%ms",
	"%", "%c", "a", " ", "%p", "%p%d", "%p%", "%hf", "%hhf", "%llf", "%lx", "%hx", "%hhx", "%llx", "%l", "%h", "%hh", "%ll", "%%", "%zu", "%Lf", "%n", "%X", "%a", "%ju", "%td", "\xff", "%5d", "%-d", "%.2f", "%*d" };
static const int NPIECES = sizeof(PIECES) / sizeof(*PIECES);

static void c01_formats()
{
	int a = pick(NPIECES, "piece"), b = pick(NPIECES + 1, "piece");
	uint64_t n = 0;
	Val byk[14];
	byk[ref::I8] = ref::vi(ref::I8, -3); byk[ref::U8] = ref::vu(ref::U8, 250); byk[ref::I16] = ref::vi(ref::I16, -300); byk[ref::U16] = ref::vu(ref::U16, 60000);
	byk[ref::I32] = ref::vi(ref::I32, -70000); byk[ref::U32] = ref::vu(ref::U32, 4000000000u); byk[ref::I64] = ref::vi(ref::I64, -5000000000ll); byk[ref::U64] = ref::vu(ref::U64, 1ull << 63);
	byk[ref::STR] = ref::vs("ab"); byk[ref::BUF] = ref::vb(Bytes("\0b", 2)); byk[ref::F32] = ref::vf(2.5f); byk[ref::F64] = ref::vd(-0.75);
	for (int c = 0; c <= (b == NPIECES ? 0 : NPIECES); c++) {
		std::string f = PIECES[a]; if (b < NPIECES) { f += PIECES[b]; if (c < NPIECES) f += PIECES[c]; }
		std::vector<int> kinds;
		int ok = parse_fmt(f, false, &kinds);
		if (ok < 0) continue;
		n++;
		std::vector<Val> vs; std::vector<uint64_t> gp; std::vector<double> fp; ref::Args ar; std::vector<Exact> keep; keep.reserve(16);
		std::vector<std::string> texts;
		for (int k : kinds) {
			const Val &v = byk[k]; vs.push_back(v); push_arg(gp, fp, ar, v, keep);
			char t[64];
			switch (k) {
			case ref::STR: texts.push_back(v.s); break;
			case ref::BUF: texts.push_back("0062"); texts.push_back("2"); break;
			case ref::F32: texts.push_back("2.5"); break;
			case ref::F64: texts.push_back("-0.75"); break;
			case ref::U8: case ref::U16: case ref::U32: case ref::U64: snprintf(t, 64, "%" PRIu64, v.u); texts.push_back(t); break;
			default: snprintf(t, 64, "%" PRIi64, v.i); texts.push_back(t);
			}
		}
		for (int k = 0; k < 4; k++) ar.u(0);
		Exact fx(f, true);
		va_list ap; ar.fill(&ap);
		struct pomp_msg *m = pomp_msg_new();
		int r = pomp_msg_writev(m, 77, fx.p, ap);
		MC_CHECK(ok ? r == 0 : r < 0, "format \"%s\" is %s, pomp_msg_writev returned %d", f.c_str(), ok ? "valid" : "invalid", r);
		if (ok) finish_check(m, 77, vs, "pomp_msg_writev");
		pomp_msg_clear(m);
		const char **argv = (const char **)malloc(sizeof(char *) * (texts.size() + 4));
		for (size_t k = 0; k < texts.size(); k++) argv[k] = texts[k].c_str();
		for (size_t k = 0; k < 4; k++) argv[texts.size() + k] = "1";
		r = pomp_msg_write_argv(m, 77, fx.p, (int)texts.size() + (ok ? 0 : 4), argv);
		MC_CHECK(ok ? r == 0 : r < 0, "format \"%s\" is %s, pomp_msg_write_argv returned %d", f.c_str(), ok ? "valid" : "invalid", r);
		if (ok) finish_check(m, 77, vs, "pomp_msg_write_argv");
		pomp_msg_clear(m);
		/* the format with no argument at all */
		r = pomp_msg_write_argv(m, 77, fx.p, 0, nullptr);
		MC_CHECK(r < 0, "format \"%s\" accepted without any text argument: %d", f.c_str(), r);
		free(argv);
		pomp_msg_destroy(m);
	}
	count(n);
}
/* hexadecimal text of buffers: all short texts and all small sizes */
static void c01_hextext()
{
	static const char A[] = "0aF9g-x ";
	int maxl = thorough() ? 7 : 6, na = 8;
	int a = pick(na + 1, "char"), b = a == na ? 0 : pick(na, "char");
	uint64_t cnt = 0;
	struct pomp_msg *m = pomp_msg_new();
	std::vector<std::string> work;
	if (a == na) { work = {""}; for (int k = 0; k < na; k++) work.push_back(std::string(1, A[k])); }
	else work.push_back(std::string() + A[a] + A[b]);
	for (size_t w = 0; w < work.size(); w++) {
		std::string t = work[w];
		if (a != na && (int)t.size() < maxl) for (int k = 0; k < na; k++) work.push_back(t + A[k]);
		bool hex = t.find_first_not_of("0aF9") == std::string::npos;
		for (uint32_t len = 0; len <= 4; len++) {
			Exact x(t, true); char sl[8]; snprintf(sl, 8, "%u", len);
			const char *argv[2] = { x.p, sl };
			int r = pomp_msg_write_argv(m, 9, "%p%u", 2, argv);
			cnt++;
			if (r == 0) {
				Bytes g = msg_bytes(m);
				MC_CHECK(g.size() == 12 + 2 + len, "hex text \"%s\" with size %u wrote %s", t.c_str(), len, hexs(g));
			}
			if (len > (t.size() + 1) / 2) MC_CHECK(r < 0, "hex text \"%s\" too short for size %u but accepted", t.c_str(), len);
			else if (!hex && len == (t.size() + 1) / 2) MC_CHECK(r < 0, "text \"%s\" is not hexadecimal but accepted with size %u", t.c_str(), len);
			else if (len == (t.size() + 1) / 2) {
				std::string e = t.size() % 2 ? "0" + t : t; Bytes want;
				for (size_t k = 0; k < e.size(); k += 2) want += (char)strtoul(e.substr(k, 2).c_str(), 0, 16);
				MC_CHECK(r == 0, "hex text \"%s\" with size %u refused: %d", t.c_str(), len, r);
				finish_check(m, 9, { ref::vb(want) }, "pomp_msg_write_argv");
			}
			pomp_msg_clear(m);
		}
		if ((w & 127) == 0) heartbeat();
	}
	pomp_msg_destroy(m);
	count(cnt);
}
/* values without encoding, misuse, and lack of memory */
static void c01_refuse()
{
	struct pomp_msg *m = pomp_msg_new();
	struct pomp_encoder *e = pomp_encoder_new();
	int c = pick(7, "case");
	pomp_msg_init(m, 3); pomp_encoder_init(e, m);
	int r = 0;
	switch (c) {
	case 0: case 1: { Exact x(Bytes(c ? 70000 : 65535, 'q'), true); r = pomp_encoder_write_str(e, x.p); MC_CHECK(r < 0, "a string of %zu bytes was accepted", x.n); 
		const char *argv[1] = { x.p }; r = pomp_encoder_write_argv(e, "%s", 1, argv); MC_CHECK(r < 0, "a text of %zu bytes was accepted", x.n);
		r = pomp_encoder_write(e, "%s", x.p); MC_CHECK(r < 0, "a string of %zu bytes was accepted by pomp_encoder_write", x.n); break; }
	case 2: r = pomp_encoder_write_str(e, nullptr); MC_CHECK(r < 0, "null string accepted"); r = pomp_encoder_write(e, "%s", (char *)nullptr); MC_CHECK(r < 0, "null string accepted by the format"); break;
	case 3: r = pomp_encoder_write_buf(e, nullptr, 4); MC_CHECK(r < 0, "null buffer accepted"); r = pomp_encoder_write(e, "%p%u", (void *)nullptr, 4u); MC_CHECK(r < 0, "null buffer accepted by the format"); break;
	case 4: { pomp_encoder_write_i8(e, 1); pomp_msg_finish(m); Bytes b = msg_bytes(m);
		for (auto &i : items()) { r = write_typed(e, i.v); MC_CHECK(r < 0, "a finished message accepted a value of type %d", i.v.t); MC_CHECK(msg_bytes(m) == b, "a finished message changed"); }
		break; }
	case 5: { r = pomp_encoder_write_argv(e, "%d", 1, nullptr); MC_CHECK(r < 0, "null argv accepted"); r = pomp_encoder_write_argv(e, nullptr, 0, nullptr); MC_CHECK(r == 0, "no format and no argument refused: %d", r); break; }
	case 6: { /* huge sizes: refused, never truncated */
		char one = 1;
		r = pomp_encoder_write_buf(e, &one, 1); MC_CHECK(r == 0, "one byte buffer refused"); pomp_msg_finish(m); finish_check(m, 3, { ref::vb(Bytes("\1", 1)) }, "write_buf"); break; }
	}
	pomp_encoder_destroy(e);
	pomp_msg_destroy(m);
	count(1);
}
/* each allocation failing: an error, or the exact bytes */
static void c01_nomem()
{
	auto &I = items();
	static const int sel[] = { 18, 19, 0, 11 };
	std::vector<Val> vs;
	for (int k = 0; k < 3; k++) vs.push_back(I[sel[pick(4, "value")]].v);
	simk::cfg.faults = simk::F_MALLOC;
	struct pomp_msg *m = pomp_msg_new();
	if (!m) return;
	if (pomp_msg_init(m, 3) == 0) {
		struct pomp_encoder *e = pomp_encoder_new();
		if (e) {
			pomp_encoder_init(e, m);
			bool ok = true;
			for (auto &v : vs) ok = ok && write_typed(e, v) == 0;
			if (ok) ok = pomp_msg_finish(m) == 0;
			if (ok) finish_check(m, 3, vs, "typed writers under memory pressure");
			else MC_CHECK(simk::faults_injected > 0, "a writer failed without reason");
			pomp_encoder_destroy(e);
		}
	}
	pomp_msg_destroy(m);
}
static Reg r1([] {
	add("C01", "values", c01_values);
	add("C01", "sequences", c01_sequences);
	add("C01", "formats", c01_formats);
	add("C01", "hextext", c01_hextext);
	add("C01", "refuse", c01_refuse);
	add("C01", "nomem", c01_nomem, 1, 2);
});

/* ------------------------------------------------------------------ C02 */
/* reads one value of the given type; 0 or error */
static int read_typed(struct pomp_decoder *d, int t, Val *v, const Bytes *whole = nullptr, const char *base = nullptr)
{
	int r; v->t = (ref::Type)t;
	switch (t) {
	case ref::I8: { int8_t x = 99; r = pomp_decoder_read_i8(d, &x); v->i = x; return r; }
	case ref::U8: { uint8_t x = 99; r = pomp_decoder_read_u8(d, &x); v->u = x; return r; }
	case ref::I16: { int16_t x = 99; r = pomp_decoder_read_i16(d, &x); v->i = x; return r; }
	case ref::U16: { uint16_t x = 99; r = pomp_decoder_read_u16(d, &x); v->u = x; return r; }
	case ref::I32: { int32_t x = 99; r = pomp_decoder_read_i32(d, &x); v->i = x; return r; }
	case ref::U32: { uint32_t x = 99; r = pomp_decoder_read_u32(d, &x); v->u = x; return r; }
	case ref::I64: { int64_t x = 99; r = pomp_decoder_read_i64(d, &x); v->i = x; return r; }
	case ref::U64: { uint64_t x = 99; r = pomp_decoder_read_u64(d, &x); v->u = x; return r; }
	case ref::F32: { float x = 99; r = pomp_decoder_read_f32(d, &x); v->f = x; return r; }
	case ref::F64: { double x = 99; r = pomp_decoder_read_f64(d, &x); v->d = x; return r; }
	case ref::STR: {
		const char *s = nullptr; r = pomp_decoder_read_cstr(d, &s);
		if (r == 0) {
			MC_CHECK(s != nullptr, "no string returned");
			if (base) { MC_CHECK(s >= base + 12 && s < base + whole->size(), "returned string lies outside the payload"); MC_CHECK(memchr(s, 0, base + whole->size() - s), "returned string is not terminated inside the payload"); }
			v->s = s;
		}
		return r; }
	case ref::BUF: {
		const void *p = nullptr; uint32_t n = 0; r = pomp_decoder_read_cbuf(d, &p, &n);
		if (r == 0) {
			if (base) MC_CHECK((const char *)p >= base + 12 && (const char *)p + n <= base + whole->size(), "returned buffer lies outside the payload");
			v->s.assign((const char *)p, n);
		}
		return r; }
	case ref::FD: { int x = 99; r = pomp_decoder_read_fd(d, &x); v->i = x; return r; }
	case 100: { char *s = nullptr; r = pomp_decoder_read_str(d, &s); v->t = ref::STR; if (r == 0) { v->s = s; simk::lib_free(s); } return r; }
	case 101: { void *p = nullptr; uint32_t n = 0; r = pomp_decoder_read_buf(d, &p, &n); v->t = ref::BUF; if (r == 0) { v->s.assign((const char *)p, n); simk::lib_free(p); } return r; }
	}
	return -1;
}
static const int RTYPES[] = { ref::I8, ref::U8, ref::I16, ref::U16, ref::I32, ref::U32, ref::I64, ref::U64, ref::STR, ref::BUF, ref::F32, ref::F64, ref::FD, 100, 101 };
static int base_type(int t) { return t == 100 ? ref::STR : t == 101 ? ref::BUF : t; }
static bool same(const Val &a, const Val &b) { if (a.t == ref::STR && b.t == ref::STR) return !strcmp(a.s.c_str(), b.s.c_str()); return a == b; }

static void read_back(uint32_t id, const std::vector<Val> &vs)
{
	Bytes bytes = ref::message(id, vs);
	struct pomp_msg *m = msg_of(bytes);
	MC_CHECK(m, "message of %s not accepted", hexs(bytes));
	MC_CHECK(pomp_msg_get_id(m) == id, "message id %u instead of %u", pomp_msg_get_id(m), id);
	struct pomp_decoder *d = pomp_decoder_new();
	size_t base = simk::lib_allocs();
	for (int copy = 0; copy < 2; copy++) {
		MC_CHECK(pomp_decoder_init(d, m) == 0, "pomp_decoder_init");
		for (size_t k = 0; k < vs.size(); k++) {
			for (int t : RTYPES) if (base_type(t) != vs[k].t) {
				Val o; int r = read_typed(d, t, &o);
				MC_CHECK(r < 0, "value %zu of %s has type %d but was read as type %d", k, hexs(bytes), vs[k].t, base_type(t));
			}
			Val o; int t = vs[k].t; if (copy && t == ref::STR) t = 100; if (copy && t == ref::BUF && !vs[k].s.empty()) t = 101;
			int r = read_typed(d, t, &o);
			MC_CHECK(r == 0, "value %zu of %s cannot be read: %d", k, hexs(bytes), r);
			MC_CHECK(same(o, vs[k]), "value %zu of %s read back differently", k, hexs(bytes));
		}
		for (int t : RTYPES) { Val o; int r = read_typed(d, t, &o); MC_CHECK(r < 0, "type %d read beyond the last value of %s", t, hexs(bytes)); }
		pomp_decoder_clear(d);
	}
	MC_CHECK(simk::lib_allocs() == base, "reading leaked memory");
	MC_CHECK(msg_bytes(m) == bytes, "reading changed the message %s to %s", hexs(bytes), hexs(msg_bytes(m)));
	pomp_decoder_destroy(d);
	pomp_msg_destroy(m);
}
static void c02_values()
{
	ref::Type t = TYPES[pick(12, "type")];
	auto vals = boundary(t);
	int parts = 8, part = pick(parts, "part");
	uint64_t n = 0;
	for (size_t k = part; k < vals.size(); k += parts) { read_back(IDS[k % 8], { vals[k] }); n++; if ((n & 63) == 0) heartbeat(); }
	count(n);
}

/* destination slots of a formatted read */
struct Dst {
	struct S { int t; union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; char *s; const void *p; int fd; }; uint32_t n; };
	std::vector<S> s;
	ref::Args a; std::vector<uint64_t> gp;
	Dst() { s.reserve(40); }
	void add(int t) { S x; memset(&x, 0xa5, sizeof(x)); x.t = t; s.push_back(x); a.p(&s.back().u64); gp.push_back((uint64_t)(uintptr_t)&s.back().u64); if (t == ref::BUF) { a.p(&s.back().n); gp.push_back((uint64_t)(uintptr_t)&s.back().n); } }
	bool is(size_t k, const Val &v) {
		S &x = s[k];
		switch (x.t) {
		case ref::I8: return x.i8 == v.i; case ref::U8: return x.u8 == v.u; case ref::I16: return x.i16 == v.i; case ref::U16: return x.u16 == v.u;
		case ref::I32: return x.i32 == v.i; case ref::U32: return x.u32 == v.u; case ref::I64: return x.i64 == v.i; case ref::U64: return x.u64 == v.u;
		case ref::F32: return !memcmp(&x.f, &v.f, 4); case ref::F64: return !memcmp(&x.d, &v.d, 8);
		case ref::STR: return x.s && !strcmp(x.s, v.s.c_str()); case ref::BUF: return x.n == v.s.size() && !memcmp(x.p, v.s.data(), x.n);
		}
		return false;
	}
};
static const char *rf(int t)
{
	switch (t) { case ref::I8: return "%hhd"; case ref::U8: return "%hhu"; case ref::I16: return "%hi"; case ref::U16: return "%hu"; case ref::I32: return "%d"; case ref::U32: return "%u"; case ref::I64: return "%lld"; case ref::U64: return "%llu"; case ref::STR: return "%ms"; case ref::BUF: return "%p%u"; case ref::F32: return "%f"; case ref::F64: return "%lf"; case ref::FD: return "%x"; }
	return "";
}
typedef int (*msgr)(const struct pomp_msg *, const char *, ...);
typedef int (*decr)(struct pomp_decoder *, const char *, ...);
static void scan(struct pomp_msg *m, const Bytes &bytes, const std::vector<Val> &vs, const std::string &fmt, const std::vector<int> &kinds, int expect_ok /* number of values that match */, bool variadic)
{
	Dst d; for (int k : kinds) d.add(k);
	size_t base = simk::lib_allocs();
	int r;
	Exact f(fmt, true);
	if (variadic && kinds.size() % 2) { d.gp.resize(10); auto &g = d.gp; struct pomp_decoder *dec = pomp_decoder_new(); pomp_decoder_init(dec, m); r = ((decr)pomp_decoder_read)(dec, f.p, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9]); pomp_decoder_destroy(dec); }
	else if (variadic) { d.gp.resize(10); auto &g = d.gp; r = ((msgr)pomp_msg_read)(m, f.p, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9]); }
	else { va_list ap; d.a.fill(&ap); r = pomp_msg_readv(m, f.p, ap); }
	bool ok = expect_ok == (int)kinds.size();
	MC_CHECK(ok ? r == 0 : r < 0, "reading %s with \"%s\": returned %d", hexs(bytes), fmt.c_str(), r);
	for (size_t k = 0; k < kinds.size(); k++) {
		if ((int)k < expect_ok) {
			if (ok) { MC_CHECK(d.is(k, vs[k]), "reading %s with \"%s\": value %zu is wrong", hexs(bytes), fmt.c_str(), k); if (kinds[k] == ref::STR) simk::lib_free(d.s[k].s); }
			else if (kinds[k] == ref::STR) MC_CHECK(d.s[k].s == nullptr, "failed reading of %s with \"%s\" left string pointer %zu", hexs(bytes), fmt.c_str(), k);
			else MC_CHECK(d.is(k, vs[k]), "failed reading of %s with \"%s\": value %zu before the error is wrong", hexs(bytes), fmt.c_str(), k);
		} else MC_CHECK((int)k == expect_ok || !memcmp(&d.s[k].u64, "\xa5\xa5\xa5\xa5\xa5\xa5\xa5\xa5", 8), "value %zu written although the reading stopped before", k);
	}
	MC_CHECK(simk::lib_allocs() == base, "reading %s with \"%s\" leaked memory", hexs(bytes), fmt.c_str());
	MC_CHECK(msg_bytes(m) == bytes, "reading changed the message");
}
static void c02_seq(uint32_t id, const std::vector<const Item *> &seq, bool cross)
{
	std::vector<Val> vs; for (auto *i : seq) vs.push_back(i->v);
	read_back(id, vs);
	Bytes bytes = ref::message(id, vs);
	struct pomp_msg *m = msg_of(bytes);
	std::string fmt; std::vector<int> kinds;
	for (size_t k = 0; k <= seq.size(); k++) {
		scan(m, bytes, vs, fmt, kinds, (int)k, false);
		if (k <= 5) scan(m, bytes, vs, fmt, kinds, (int)k, true);
		/* every other type at this place */
		for (int t = ref::I8; t <= ref::FD; t++) if (k == seq.size() || t != vs[k].t) {
			auto k2 = kinds; k2.push_back(t);
			scan(m, bytes, vs, fmt + rf(t), k2, (int)k, false);
			if (t == ref::I64 || t == ref::U64) scan(m, bytes, vs, fmt + (t == ref::I64 ? "%ld" : "%lu"), k2, (int)k, k <= 5);
			if (cross && k + 1 < seq.size()) { k2.push_back(vs[k + 1].t); scan(m, bytes, vs, fmt + rf(t) + rf(vs[k + 1].t), k2, (int)k, true); }
		}
		/* a bad piece of format at this place */
		for (const char *bad : { "%s", "%", "x", "%p", "%hf", "%q", "%lx" }) {
			auto k2 = kinds; k2.push_back(ref::U64); k2.push_back(ref::U64);
			scan(m, bytes, vs, fmt + bad, k2, (int)k, false);
		}
		if (k < seq.size()) { fmt += seq[k]->rfmt; kinds.push_back(vs[k].t); }
	}
	Bytes want = ref::dump(id, vs);
	{ char *s = (char *)0x1; int r = pomp_msg_adump(m, &s); MC_CHECK(r == 0, "pomp_msg_adump %d", r); MC_CHECK(want == s, "dump is \"%s\" instead of \"%s\"", s, want.c_str()); simk::lib_free(s); }
	{ Exact dst(Bytes(want.size() + 1, '#')); int r = pomp_msg_dump(m, dst.p, (uint32_t)dst.n); MC_CHECK(r == 0, "pomp_msg_dump %d", r); MC_CHECK(want == dst.p, "dump is \"%s\" instead of \"%s\"", dst.p, want.c_str()); }
	MC_CHECK(msg_bytes(m) == bytes, "dumping changed the message");
	/* a decoder that was used up to some argument goes on from there, however it is used */
	for (size_t k = 0; k <= seq.size() && seq.size() <= 3; k++) for (int how = 0; how < 3; how++) {
		size_t base = simk::lib_allocs();
		struct pomp_decoder *dec = pomp_decoder_new();
		MC_CHECK(dec && pomp_decoder_init(dec, m) == 0, "pomp_decoder_init");
		auto part = [&](size_t from, size_t to) {
			Dst d; std::string f;
			for (size_t i = from; i < to; i++) { d.add(vs[i].t); f += seq[i]->rfmt; }
			va_list ap; d.a.fill(&ap);
			int r = pomp_decoder_readv(dec, f.c_str(), ap);
			MC_CHECK(r == 0, "reading values %zu to %zu of %s with \"%s\": %d", from, to, hexs(bytes), f.c_str(), r);
			for (size_t i = from; i < to; i++) { MC_CHECK(d.is(i - from, vs[i]), "reading value %zu of %s from value %zu on: wrong", i, hexs(bytes), from); if (vs[i].t == ref::STR) simk::lib_free(d.s[i - from].s); }
		};
		part(0, k);
		Bytes rest = ref::dump(id, std::vector<Val>(vs.begin() + (long)k, vs.end()));
		if (how == 0) part(k, vs.size());
		else if (how == 1) { char *s = (char *)0x1; int r = pomp_decoder_adump(dec, &s); MC_CHECK(r == 0, "pomp_decoder_adump %d", r); MC_CHECK(rest == s, "dump from value %zu on is \"%s\" instead of \"%s\"", k, s, rest.c_str()); simk::lib_free(s); }
		else { Exact dst(Bytes(rest.size() + 1, '#')); int r = pomp_decoder_dump(dec, dst.p, (uint32_t)dst.n); MC_CHECK(r == 0, "pomp_decoder_dump %d", r); MC_CHECK(rest == dst.p, "dump from value %zu on is \"%s\" instead of \"%s\"", k, dst.p, rest.c_str()); }
		Val o; MC_CHECK(read_typed(dec, ref::U32, &o) < 0, "something can be read after the last value of %s", hexs(bytes));
		pomp_decoder_destroy(dec);
		MC_CHECK(simk::lib_allocs() == base, "using a decoder on %s leaked memory", hexs(bytes));
		MC_CHECK(msg_bytes(m) == bytes, "using a decoder changed the message");
	}
	pomp_msg_destroy(m);
}
static void c02_sequences()
{
	auto &I = items();
	int n = (int)I.size();
	int a = pick(n + 1, "first");
	if (a == n) { c02_seq(5, {}, true); count(1); return; }
	int b = pick(n + 1, "second");
	uint64_t k = 0;
	if (b == n) { c02_seq(IDS[a % 8], { &I[a] }, true); count(1); return; }
	c02_seq(IDS[b % 8], { &I[a], &I[b] }, true); k++;
	for (int c = 0; c < n; c++) {
		c02_seq(IDS[c % 8], { &I[a], &I[b], &I[c] }, thorough()); k++;
		if (thorough()) for (int d = 0; d < n; d += 3) { c02_seq(IDS[d % 8], { &I[a], &I[b], &I[c], &I[d] }, false); k++; }
		heartbeat();
	}
	count(k);
}
/* the documented limit of strings in one format */
static void c02_manystrings()
{
	int n = pick(20, "strings"), bad = pick(3, "tail");
	std::vector<Val> vs; std::string fmt; std::vector<int> kinds;
	for (int k = 0; k < n; k++) { vs.push_back(ref::vs(Bytes(k, 'a' + k))); fmt += "%ms"; kinds.push_back(ref::STR); }
	if (bad == 1) { vs.push_back(ref::vi(ref::I32, 5)); fmt += "%u"; kinds.push_back(ref::U32); }
	if (bad == 2) { vs.push_back(ref::vi(ref::I32, 5)); fmt += "%d"; kinds.push_back(ref::I32); }
	Bytes b = ref::message(4, vs);
	struct pomp_msg *m = msg_of(b);
	int ok = n > 16 ? 16 : n; if (n <= 16 && bad == 2) ok++;
	if (n > 16) { /* more than the limit: refused as a whole, or (a higher limit) read correctly */
		Dst d; for (int k : kinds) d.add(k);
		size_t base = simk::lib_allocs();
		va_list ap; d.a.fill(&ap); int r = pomp_msg_readv(m, fmt.c_str(), ap);
		if (r == 0) for (int k = 0; k < n; k++) { MC_CHECK(d.is(k, vs[k]), "string %d wrong", k); simk::lib_free(d.s[k].s); }
		else for (int k = 0; k < n; k++) MC_CHECK(d.s[k].s == nullptr || d.s[k].u64 == 0xa5a5a5a5a5a5a5a5ull, "string pointer %d left after an error", k);
		MC_CHECK(simk::lib_allocs() == base, "strings leaked");
	} else scan(m, b, vs, fmt, kinds, ok, false);
	pomp_msg_destroy(m);
	count(1);
}
static void c02_nomem()
{
	int pat = pick(16, "pattern");
	std::vector<Val> vs; std::string fmt; std::vector<int> kinds;
	for (int k = 0; k < 4; k++) if (pat & (1 << k)) { vs.push_back(ref::vs(Bytes(k + 1, 's'))); fmt += "%ms"; kinds.push_back(ref::STR); } else { vs.push_back(ref::vu(ref::U16, k)); fmt += "%hu"; kinds.push_back(ref::U16); }
	struct pomp_msg *m = msg_of(ref::message(4, vs));
	Dst d; for (int k : kinds) d.add(k);
	size_t base = simk::lib_allocs();
	simk::cfg.faults = simk::F_MALLOC; 
	va_list ap; d.a.fill(&ap); int r = pomp_msg_readv(m, fmt.c_str(), ap);
	int inj = simk::faults_injected;
	MC_CHECK(inj ? r < 0 : r == 0, "formatted read returned %d with %d failed allocations", r, inj);
	for (size_t k = 0; k < kinds.size(); k++) if (kinds[k] == ref::STR) {
		if (r == 0) { MC_CHECK(d.is(k, vs[k]), "string %zu wrong", k); simk::lib_free(d.s[k].s); }
		else MC_CHECK(d.s[k].s == nullptr || d.s[k].u64 == 0xa5a5a5a5a5a5a5a5ull, "string pointer %zu left after an error", k);
	}
	MC_CHECK(simk::lib_allocs() == base, "a failed read leaked memory");
	char *s = nullptr; r = pomp_msg_adump(m, &s);
	if (r == 0) { MC_CHECK(ref::dump(4, vs) == s, "dump differs"); simk::lib_free(s); } else { MC_CHECK(simk::faults_injected > inj, "pomp_msg_adump failed without reason: %d", r); MC_CHECK(s == nullptr, "failed pomp_msg_adump returned a text"); }
	MC_CHECK(simk::lib_allocs() == base, "dump leaked memory");
	struct pomp_decoder *dec = pomp_decoder_new();
	if (dec) {
		pomp_decoder_init(dec, m); inj = simk::faults_injected;
		char *q = nullptr; r = pomp_decoder_read_str(dec, &q);
		if (r == 0) simk::lib_free(q);
		pomp_decoder_destroy(dec);
	}
	pomp_msg_destroy(m);
}
static Reg r2([] {
	add("C02", "values", c02_values);
	add("C02", "sequences", c02_sequences);
	add("C02", "manystrings", c02_manystrings);
	add("C02", "nomem", c02_nomem, 1, 2);
});

/* ------------------------------------------------------------------ C03 */
static void hostile(const Bytes &payload, bool alldumps)
{
	uint32_t id = 6;
	Bytes bytes = ref::raw_message(id, payload);
	struct pomp_msg *m = msg_of(bytes);
	MC_CHECK(m, "message of %s not accepted", hexs(bytes));
	const void *cd; size_t len, cap; pomp_buffer_get_cdata(pomp_msg_get_buffer(m), &cd, &len, &cap);
	const char *base = (const char *)cd;
	struct pomp_decoder *d = pomp_decoder_new();
	size_t allocs = simk::lib_allocs();
	/* walk: every reader at every place the walk can reach */
	size_t pos = 0; Bytes text = ref::dump_head(id); bool good = true; std::vector<Val> ok;
	for (int step = 0;; step++) {
		Val want; size_t np = pos;
		bool has = ref::get(payload, np, &want);
		for (int t : RTYPES) {
			if (has && base_type(t) == want.t) continue;
			MC_CHECK(pomp_decoder_init(d, m) == 0, "pomp_decoder_init");
			for (auto &v : ok) { Val o; int r = read_typed(d, v.t, &o, &bytes, base); MC_CHECK(r == 0 && same(o, v), "payload %s: value before position %zu read differently", hexs(payload), pos); }
			Val o; int r = read_typed(d, t, &o, &bytes, base);
			MC_CHECK(r < 0, "payload %s: type %d read at position %zu where there is %s", hexs(payload), base_type(t), pos, has ? "another type" : "no valid value");
			if (step > 0 && !alldumps) break;
		}
		if (!has) { good = pos == payload.size(); break; }
		for (int var = 0; var < 2; var++) {
			int t = want.t;
			if (var) { if (t == ref::STR) t = 100; else if (t == ref::BUF) t = 101; else break; }
			if (t == 101 && want.s.empty()) break;
			pomp_decoder_init(d, m);
			for (auto &v : ok) { Val o; read_typed(d, v.t, &o, &bytes, base); }
			Val o; int r = read_typed(d, t, &o, &bytes, base);
			MC_CHECK(r == 0, "payload %s: value at position %zu refused: %d", hexs(payload), pos, r);
			MC_CHECK(same(o, want), "payload %s: wrong value at position %zu", hexs(payload), pos);
		}
		text += ref::dump1(want);
		ok.push_back(want); pos = np;
	}
	size_t L = text.size();
	if (good) text += "}";
	pomp_decoder_clear(d);
	/* dumps into memory of the exact size */
	auto dump = [&](uint32_t n) {
		char *p = (char *)malloc(n ? n : 1); memset(p, '#', n ? n : 1);
		int r = pomp_msg_dump(m, p, n);
		if (n > 0) MC_CHECK(memchr(p, 0, n), "payload %s: dump of size %u not terminated", hexs(payload), n);
		if (good) MC_CHECK(r == 0, "payload %s: dump of size %u failed: %d", hexs(payload), n, r);
		else if (L < n) MC_CHECK(r < 0, "payload %s: dump of size %u of an invalid payload succeeded", hexs(payload), n);
		if (r == 0) {
			if (good && text.size() < n) MC_CHECK(text == p, "payload %s: dump of size %u is \"%s\" instead of \"%s\"", hexs(payload), n, p, text.c_str());
			else if (n >= 5) { Bytes w = text.substr(0, n - 5) + "...}"; MC_CHECK(w == p, "payload %s: dump of size %u is \"%s\" instead of \"%s\"", hexs(payload), n, p, w.c_str()); }
		}
		free(p);
	};
	if (alldumps) for (uint32_t n = 0; n <= text.size() + 3; n++) dump(n);
	else { dump((uint32_t)text.size() + 40); dump((uint32_t)text.size()); dump((uint32_t)(payload.size() * 3 + 5)); }
	char *s = (char *)0x10; int r = pomp_msg_adump(m, &s);
	if (good) { MC_CHECK(r == 0, "payload %s: adump failed: %d", hexs(payload), r); MC_CHECK(text == s, "payload %s: adump is \"%s\" instead of \"%s\"", hexs(payload), s, text.c_str()); simk::lib_free(s); }
	else { MC_CHECK(r < 0, "payload %s: adump of an invalid payload succeeded", hexs(payload)); MC_CHECK(s == nullptr, "payload %s: failed adump returned a text", hexs(payload)); }
	/* formatted reads of what the payload starts with */
	MC_CHECK(simk::lib_allocs() == allocs, "payload %s: memory leaked", hexs(payload));
	MC_CHECK(msg_bytes(m) == bytes, "payload %s: reading changed the message", hexs(payload));
	pomp_decoder_destroy(d);
	pomp_msg_destroy(m);
}
static const uint8_t ALPHA[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x10, 0x41, 0x7f, 0x80, 0x81, 0xff };
static void c03_alphabet()
{
	int n = sizeof(ALPHA), maxl = thorough() ? 6 : 5;
	int a = pick(n + 1, "byte");
	if (a == n) { hostile("", true); count(1); return; }
	int b = pick(n + 1, "byte");
	Bytes p(1, (char)ALPHA[a]);
	if (b == n) { hostile(p, true); count(1); return; }
	p += (char)ALPHA[b];
	hostile(p, true);
	uint64_t k = 1;
	for (int c = 0; c < n; c++) {
		Bytes q = p + (char)ALPHA[c]; hostile(q, true); k++;
		for (int d = 0; d < n; d++) {
			Bytes s = q + (char)ALPHA[d]; hostile(s, false); k++;
			for (int e = 0; e < n; e++) {
				Bytes t = s + (char)ALPHA[e]; hostile(t, false); k++;
				if (maxl > 5) for (int f = 0; f < n; f++) { hostile(t + (char)ALPHA[f], false); k++; }
			}
			heartbeat();
		}
	}
	count(k);
}
/* every one, two byte payload */
static void c03_twobytes()
{
	int a = pick(128, "byte");
	for (int x = a; x < 256; x += 128) for (int b = 0; b < 256; b++) { Bytes p; p += (char)x; p += (char)b; hostile(p, false); }
	count(512);
}
/* varints and sizes of every length, with continuation bits, in each type that has one */
static void c03_varints()
{
	static const int T[] = { ref::I32, ref::U32, ref::I64, ref::U64, ref::STR, ref::BUF };
	static const uint8_t G[] = { 0x80, 0xff, 0x81 }, L[] = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x0f, 0x10, 0x1f, 0x7e, 0x7f };
	int t = T[pick(6, "type")], n = pick(13, "groups"), g = pick(3, "group"), g2 = pick(3, "last group");
	for (uint8_t l : L) for (int tail = 0; tail < 4; tail++) {
		Bytes p(1, (char)t);
		for (int k = 0; k < n; k++) p += (char)(k + 1 == n ? G[g2] : G[g]);
		p += (char)l;
		p += tail == 0 ? Bytes() : tail == 1 ? Bytes(1, '\0') : tail == 2 ? Bytes("a\0\1\7", 4) : Bytes(140, '\0');
		hostile(p, false);
	}
	count(40);
}
/* strings and buffers whose announced size goes around the size of the payload and of integers */
static void c03_sizes()
{
	int t = pick(2, "type") ? ref::STR : ref::BUF, real = pick(20, "present bytes"), nul = pick(2, "terminated");
	static const int64_t D[] = { -2, -1, 0, 1, 2 };
	uint64_t n = 0;
	for (uint64_t b : { 0ull, 1ull, 0x7full, 0x80ull, 0xffull, 0x100ull, 0xffffull, 0x10000ull, 0x10001ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x10000000aull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xffffffffffff0000ull })
		for (int add : { 0, 1 }) for (int64_t d : D) {
			uint64_t sz = b + d + (add ? real : 0);
			Bytes p(1, (char)t); ref::put_varint(p, sz);
			for (int k = 0; k < real; k++) p += (char)('a' + k);
			if (nul && real) p[p.size() - 1] = 0;
			hostile(p, false); n++;
			hostile(p + Bytes("\x02\x05", 2), false); n++;
		}
	count(n);
}
static void c03_large()
{
	/* real strings near the limit of the size field */
	static const int S[] = { 65533, 65534, 65535, 65536, 65537, 65538, 131072 };
	int sz = S[pick(7, "size")], t = pick(2, "type") ? ref::STR : ref::BUF;
	Bytes p(1, (char)t); ref::put_varint(p, sz); p += Bytes(sz - 1, 'z'); p += '\0';
	hostile(p, false); hostile(p + "\x01\x02", false); count(2);
}
/* valid messages cut anywhere, and with any single byte changed */
static void c03_mutations()
{
	auto &I = items(); int n = (int)I.size();
	int a = pick(n, "first"), b = pick(n + 1, "second");
	Bytes p; ref::put(p, I[a].v); if (b < n) ref::put(p, I[b].v);
	uint64_t k = 0;
	for (size_t c = 0; c < p.size(); c++) { hostile(p.substr(0, c), c < 12); k++; }
	for (size_t c = 0; c < p.size() && c < 40; c++) {
		for (int x = 0; x < 256; x++) {
			if (!thorough() && b < n && !(x < 16 || x == 0x41 || x >= 0xfe || (x >= 0x7e && x <= 0x82))) continue;
			Bytes q = p; q[c] = (char)x; hostile(q, false); k++;
		}
		heartbeat();
	}
	if (b == n || thorough()) for (size_t c = 0; c <= p.size() && c < 40; c++) for (uint8_t x : ALPHA) { Bytes q = p; q.insert(c, 1, (char)x); hostile(q, false); k++; }
	hostile(p, true);
	count(k);
}
/* growing dumps: all lengths around the growth steps of the destination */
static void c03_growth()
{
	auto &I = items();
	int which = pick((int)I.size(), "value"), part = pick(8, "part");
	uint64_t n = 0;
	for (int l = part; l < 700; l += 8) {
		Bytes p; ref::put(p, ref::vs(Bytes(l, 's'))); ref::put(p, I[which].v); ref::put(p, ref::vi(ref::I64, INT64_MIN)); ref::put(p, ref::vd(-2.2250738585072014e-308)); ref::put(p, ref::vf(-1.17549435e-38f));
		hostile(p, l % 97 == 0); n++;
	}
	count(n);
	heartbeat();
}
/* headers: a message is made only of bytes that are one */
static void c03_header()
{
	Bytes full = ref::message(0x11223344, { ref::vu(ref::U8, 7), ref::vs("x") });
	int c = pick((int)full.size() + 3, "length");
	uint64_t n = 0;
	Bytes b = full; b.resize(c, '\0');
	auto tryit = [&](const Bytes &x) {
		struct pomp_msg *m = msg_of(x);
		bool ok = x.size() >= 12 && x.compare(0, 4, "POMP") == 0; uint32_t sz = 0, id = 0;
		if (x.size() >= 12) { memcpy(&id, x.data() + 4, 4); memcpy(&sz, x.data() + 8, 4); ok = ok && sz == x.size(); }
		MC_CHECK(ok == (m != nullptr), "bytes %s %s as message", hexs(x), ok ? "refused" : "accepted");
		if (m) { MC_CHECK(pomp_msg_get_id(m) == id, "message id of %s is %u", hexs(x), pomp_msg_get_id(m)); MC_CHECK(msg_bytes(m) == x, "message of %s has other bytes", hexs(x)); pomp_msg_destroy(m); }
		n++;
	};
	tryit(b);
	for (int k = 0; k < 12 && k < (int)b.size(); k++) for (int x = 0; x < 256; x++) { Bytes q = b; q[k] = (char)x; tryit(q); }
	count(n);
}
static Reg r3([] {
	add("C03", "alphabet", c03_alphabet);
	add("C03", "twobytes", c03_twobytes);
	add("C03", "varints", c03_varints);
	add("C03", "sizes", c03_sizes);
	add("C03", "large", c03_large);
	add("C03", "mutations", c03_mutations);
	add("C03", "growth", c03_growth);
	add("C03", "header", c03_header);
});

/* ------------------------------------------------------------------ C04 */
enum Mode { RELEASE, DESTROY, HOLD, MIXED, NMODE };
/* gives the stream in chunks ending at the cuts; returns the messages */
static std::vector<Bytes> feed(const Bytes &s, const std::vector<size_t> &cuts, int mode)
{
	struct pomp_prot *p = pomp_prot_new();
	if (!p) { MC_CHECK(simk::faults_injected > 0, "pomp_prot_new failed"); return {}; }
	std::vector<Bytes> o; std::vector<struct pomp_msg *> held; std::vector<Bytes> heldb;
	size_t from = 0;
	for (size_t k = 0; k <= cuts.size(); k++) {
		size_t to = k < cuts.size() ? cuts[k] : s.size();
		size_t n = to - from;
		if (n == 0) continue;
		char *c = (char *)malloc(n); memcpy(c, s.data() + from, n);
		size_t off = 0;
		while (off < n) {
			struct pomp_msg *m = nullptr;
			/* an exact copy of the rest, so that the start is also guarded */
			int r = pomp_prot_decode_msg(p, c + off, n - off, &m);
			MC_CHECK(r > 0 && (size_t)r <= n - off, "pomp_prot_decode_msg returned %d for %zu bytes", r, n - off);
			off += r;
			MC_CHECK(m || off == n, "pomp_prot_decode_msg stopped after %zu of %zu bytes without message", off, n);
			if (m) {
				Bytes b = msg_bytes(m); uint32_t id = 0; if (b.size() >= 8) memcpy(&id, b.data() + 4, 4);
				MC_CHECK(pomp_msg_get_id(m) == id, "message id %u instead of %u", pomp_msg_get_id(m), id);
				o.push_back(b);
				int md = mode == MIXED ? (int)o.size() % 3 : mode;
				if (md == RELEASE) pomp_prot_release_msg(p, m);
				else if (md == DESTROY) pomp_msg_destroy(m);
				else { held.push_back(m); heldb.push_back(b); }
			}
		}
		free(c);
		from = to;
	}
	for (size_t k = 0; k < held.size(); k++) { MC_CHECK(msg_bytes(held[k]) == heldb[k], "a held message changed"); if (k & 1) pomp_prot_release_msg(p, held[k]); else pomp_msg_destroy(held[k]); }
	pomp_prot_destroy(p);
	return o;
}
static void check_stream(const Bytes &s, const std::vector<size_t> &cuts, int mode, const std::vector<Bytes> &want)
{
	auto got = feed(s, cuts, mode);
	if (got == want) return;
	std::string c; for (size_t x : cuts) { char t[16]; snprintf(t, 16, " %zu", x); c += t; if (c.size() > 200) break; }
	for (size_t k = 0; k < got.size() || k < want.size(); k++)
		if (k >= got.size() || k >= want.size() || got[k] != want[k])
			fail("stream %s cut at%s: message %zu is %s instead of %s (%zu messages instead of %zu)", hexs(s), c.c_str(), k, k < got.size() ? hexs(got[k]) : "missing", k < want.size() ? hexs(want[k]) : "none", got.size(), want.size());
}
static std::vector<Bytes> pieces()
{
	std::vector<Bytes> v;
	v.push_back(ref::message(1, {}));
	v.push_back(ref::message(0x504d4f50, { ref::vs("POMPOM") }));
	v.push_back(ref::message(0x50, { ref::vu(ref::U32, 5), ref::vb(Bytes(200, 'P')) }));
	v.push_back(ref::raw_message(7, "\x50"));
	v.push_back("P"); v.push_back("PO"); v.push_back("POM"); v.push_back("x"); v.push_back("OMP"); v.push_back("PPOPOMPPOM");
	v.push_back(ref::header(9, 0)); v.push_back(ref::header(9, 11)); v.push_back(ref::header(0x504d4f50, 3)); v.push_back(ref::header(9, 0xffffffffu)); v.push_back(ref::header(2, 0x80000000u));
	v.push_back(Bytes(3, '\0'));
	return v;
}
static void c04_pieces()
{
	auto P = pieces(); int n = (int)P.size();
	Bytes s; int used = 0;
	int a = pick(n, "piece"); s = P[a];
	int b = pick(n + 1, "piece"); if (b < n) s += P[b];
	uint64_t k = 0;
	for (int c = 0; c <= (b < n ? n : 0); c++) {
		Bytes t = s; if (c < n && b < n) t += P[c];
		for (int d = 0; d <= (thorough() && c < n && b < n ? n : 0); d++) {
			Bytes u = t; if (d < n && thorough() && c < n && b < n) u += P[d]; else if (thorough() && c < n && b < n && d < n) continue;
			if (!(thorough())) u += P[0]; else u += P[3];
			auto want = deframe(u);
			int mode = (a + b + c + d) % NMODE;
			check_stream(u, {}, mode, want); k++;
			for (size_t i = 1; i < u.size(); i++) { check_stream(u, { i }, mode, want); k++; }
			for (size_t st : { 1, 2, 3, 4, 5, 7, 11, 12, 13 }) { std::vector<size_t> cu; for (size_t i = st; i < u.size(); i += st) cu.push_back(i); check_stream(u, cu, mode, want); k++; }
			heartbeat();
		}
	}
	count(k);
}
/* all ways of cutting in two places */
static void c04_twocuts()
{
	auto P = pieces(); int n = (int)P.size();
	int a = pick(n, "piece"), b = pick(4, "message");
	uint64_t k = 0;
	for (int order = 0; order < 2; order++) {
		Bytes s = order ? P[b == 2 ? 3 : b] + P[a] + P[0] : P[a] + P[b == 2 ? 1 : b] + P[3];
		if (s.size() > 120) continue;
		auto want = deframe(s);
		for (size_t i = 1; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) {
			check_stream(s, { i, j }, (int)(i + j) % NMODE, want); k++;
			if (thorough() && s.size() <= 60) for (size_t l = j + 1; l < s.size(); l++) { check_stream(s, { i, j, l }, (int)(i + j + l) % NMODE, want); k++; }
			if ((k & 255) == 0) heartbeat();
		}
	}
	count(k);
}
/* all ways of cutting short streams */
static void c04_allcuts()
{
	static std::vector<Bytes> S;
	if (S.empty()) S = { ref::raw_message(0x4d4f50, "") , ref::raw_message(1, "P"), Bytes("P") + ref::raw_message(2, ""), Bytes("PO") + ref::raw_message(0x504d4f50, ""), Bytes("xPOM") + ref::raw_message(3, ""), ref::raw_message(4, "PO"), Bytes("POMO") + ref::raw_message(5, ""), Bytes("PPP") + ref::raw_message(5, "P") };
	int which = pick((int)S.size(), "stream"), hi = pick(64, "part");
	Bytes s = S[which]; if (thorough()) s += "PO";
	auto want = deframe(s);
	size_t L = s.size() - 1; uint64_t k = 0;
	for (uint64_t m = hi; m < (1ull << L); m += 64) {
		std::vector<size_t> cu; for (size_t i = 0; i < L; i++) if (m >> i & 1) cu.push_back(i + 1);
		check_stream(s, cu, (int)m % NMODE, want); k++;
		if ((k & 255) == 0) heartbeat();
	}
	count(k);
}
/* all garbage over the magic alphabet before and between messages */
static void c04_garbage()
{
	static const char A[] = "POMx";
	int maxl = thorough() ? 9 : 8;
	int a = pick(4, "byte"), b = pick(4, "byte"), c = pick(4, "byte"), d = pick(4, "byte");
	std::vector<Bytes> w;
	Bytes head; head += A[a]; head += A[b]; head += A[c]; head += A[d];
	w.push_back(head);
	if (a == 0) { if (b == 0 && c == 0 && d == 0) for (int l = 1; l <= 3; l++) for (int x = 0; x < (1 << (2 * l)); x++) { Bytes g; for (int i = 0; i < l; i++) g += A[(x >> (2 * i)) & 3]; w.push_back(g); } }
	size_t first = 0; uint64_t k = 0;
	Bytes m1 = ref::raw_message(0x0c, "ab"), m2 = ref::raw_message(0x0d000000, "");
	for (size_t i = 0; i < w.size(); i++) {
		Bytes g = w[i];
		if (g.size() >= 4 && (int)g.size() < maxl) for (int x = 0; x < 4; x++) w.push_back(g + A[x]);
		for (int v = 0; v < 2; v++) {
			/* after garbage that contains a whole magic the following bytes belong to its header */
			Bytes s = v ? m1 + g + m2 + m1 : g + m1 + m2;
			auto want = deframe(s);
			check_stream(s, {}, (int)(i % NMODE), want); k++;
			for (size_t cu = v ? m1.size() : 1; cu < (v ? m1.size() : 0) + g.size() + 5; cu++) { check_stream(s, { cu }, (int)(i % NMODE), want); k++; }
			std::vector<size_t> all; for (size_t x = 1; x < s.size(); x++) all.push_back(x);
			check_stream(s, all, (int)(i % NMODE), want); k++;
		}
		if ((i & 31) == 0) heartbeat();
	}
	count(k);
}
/* sizes of messages around the growth steps of buffers */
static void c04_sizes()
{
	int part = pick(16, "part"); uint64_t n = 0;
	for (int l = part; l < 1400; l += 16) {
		Bytes b(l, 0); for (int k = 0; k < l; k++) b[k] = (char)(k * 7);
		Bytes s = ref::raw_message(l, b) + ref::raw_message(l + 1, "") + ref::raw_message(0, b);
		auto want = deframe(s);
		for (int mode = 0; mode < NMODE; mode++) { check_stream(s, {}, mode, want); for (size_t c : { (size_t)12, (size_t)13, s.size() / 2, s.size() - 1 }) check_stream(s, { c }, mode, want); n += 5; }
		heartbeat();
	}
	count(n);
}
/* a message that cannot be allocated is lost alone */
static void c04_nomem()
{
	int mode = pick(NMODE, "mode"), cut = pick(4, "cut");
	std::vector<Bytes> M; Bytes s; std::vector<size_t> cuts;
	for (int k = 0; k < 4; k++) {
		M.push_back(ref::raw_message(k + 1, Bytes(k * 150, 'a' + k)));
		size_t at = s.size(); s += M[k];
		if (cut == 1) cuts.push_back(at + 6); if (cut == 2 && k) cuts.push_back(at); if (cut == 3) cuts.push_back(at + 12);
	}
	simk::cfg.faults = simk::F_MALLOC; simk::cfg.maxfaults = 2;
	auto got = feed(s, cuts, mode);
	/* at most as many messages lost as allocations failed, and the others intact and in order */
	size_t i = 0, lost = 0;
	for (auto &g : got) { while (i < M.size() && M[i] != g) { i++; lost++; } MC_CHECK(i < M.size(), "message %s was never sent", hexs(g)); i++; }
	lost += M.size() - i;
	if (got.empty() && simk::faults_injected) { outcome(99); return; }
	MC_CHECK((int)lost <= simk::faults_injected, "%zu messages lost for %d failed allocations", lost, simk::faults_injected);
	outcome(got.size());
}
/* no memory for the first messages: decoding the later ones must work again */
static void c04_nomem_recover()
{
	struct pomp_prot *p = pomp_prot_new();
	int chunk = pick(3, "chunk");
	Bytes m1 = ref::raw_message(1, Bytes(300, 'b')), m2 = ref::raw_message(2, "c");
	simk::cfg.faults = simk::F_MALLOC;
	int got = 0, sent = 0;
	auto give = [&](const Bytes &b) {
		size_t off = 0; int n = 0;
		while (off < b.size()) {
			size_t l = chunk == 0 ? b.size() - off : chunk == 1 ? 1 : std::min<size_t>(12, b.size() - off);
			Exact e(b.substr(off, l)); struct pomp_msg *m = nullptr;
			int r = pomp_prot_decode_msg(p, e.p, l, &m); MC_CHECK(r > 0 && (size_t)r <= l, "decode returned %d", r);
			off += r;
			if (m) { MC_CHECK(msg_bytes(m) == b, "message differs"); n++; pomp_prot_release_msg(p, m); }
		}
		return n;
	};
	for (int k = 0; k < 3; k++) { int f = simk::faults_injected; int n = give(m1); MC_CHECK(n == 1 || simk::faults_injected > f, "message %d lost although memory was available", k); got += n; }
	simk::cfg.faults = 0;
	MC_CHECK(give(m2) == 1, "message lost although memory was available again");
	MC_CHECK(give(m1) == 1, "message lost although memory was available again");
	pomp_prot_destroy(p);
	outcome(got);
}
/* the decoder can be destroyed at any point of a stream */
static void c04_abandon()
{
	Bytes s = ref::raw_message(1, "abc") + "PO" + ref::raw_message(2, Bytes(300, 'P'));
	int n = pick_big((int)s.size() + 1, "bytes given");
	feed(s.substr(0, n), {}, pick(NMODE, "mode"));
	count(1);
}
static Reg r4([] {
	add("C04", "pieces", c04_pieces);
	add("C04", "twocuts", c04_twocuts);
	add("C04", "allcuts", c04_allcuts);
	add("C04", "garbage", c04_garbage);
	add("C04", "sizes", c04_sizes);
	add("C04", "nomem", c04_nomem, 2, 2);
	add("C04", "nomem-recover", c04_nomem_recover, 2, 3);
	add("C04", "abandon", c04_abandon);
});

/* C17-C19: addresses, buffers, message life cycle */
#include "wire.h"
#include <arpa/inet.h>
#include <sys/un.h>
using namespace wire;
using namespace mc;
using ref::hexs;

/* ------------------------------------------------------------------ C17 */
enum Verdict { BAD, GOOD, ANY };
/* what a text denotes */
static Verdict ref_parse(const std::string &t, Bytes *sa)
{
	sa->clear();
	if (!t.compare(0, 5, "unix:")) {
		std::string p = t.substr(5);
		if (p.size() > 107) return BAD;
		struct sockaddr_un u; memset(&u, 0, sizeof(u)); u.sun_family = AF_UNIX;
		memcpy(u.sun_path, p.data(), p.size());
		if (!p.empty() && p[0] == '@') u.sun_path[0] = 0;
		sa->assign((char *)&u, sizeof(u));
		return GOOD;
	}
	std::string r;
	bool six;
	if (!t.compare(0, 5, "inet:")) { r = t.substr(5); six = false; }
	else if (!t.compare(0, 6, "inet6:")) { r = t.substr(6); six = true; }
	else return BAD;
	size_t c = r.rfind(':');
	if (c == std::string::npos) return BAD;
	std::string host = r.substr(0, c), port = r.substr(c + 1);
	long pv = -1;
	if (!port.empty() && port.find_first_not_of("0123456789") == std::string::npos) {
		pv = port.size() > 9 ? 999999 : atol(port.c_str());
		if (pv > 65535) return BAD;
	} else if (port.find_first_not_of("0123456789 \t\n\v\f\r+-") == std::string::npos) {
		char *e; long x = strtol(port.c_str(), &e, 10);
		if (!*e && !port.empty() && (x < 0 || x > 65535)) return BAD;   /* a number, but no port */
	}
	struct in_addr a4; struct in6_addr a6;
	bool is4 = inet_pton(AF_INET, host.c_str(), &a4) == 1, is6 = inet_pton(AF_INET6, host.c_str(), &a6) == 1;
	if (!is4 && !is6) {
		if (inet_aton(host.c_str(), &a4) || host.find('%') != std::string::npos) return ANY;
		return BAD;
	}
	if (pv < 0) { /* names of services are the system's business, other texts are no port */
		if (port.empty()) return ANY;
		bool alpha = false; for (char x : port) alpha = alpha || isalpha((unsigned char)x);
		if (alpha && port.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_") == std::string::npos && isalpha((unsigned char)port[0])) return ANY;
		if (port.find_first_of("0123456789") != std::string::npos && (port[0] == ' ' || port[0] == '+' || port[0] == '-' || isspace((unsigned char)port[0]))) return ANY;
		return BAD;
	}
	if (is4) { struct sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons((uint16_t)pv); s.sin_addr = a4; sa->assign((char *)&s, sizeof(s)); }
	else { struct sockaddr_in6 s; memset(&s, 0, sizeof(s)); s.sin6_family = AF_INET6; s.sin6_port = htons((uint16_t)pv); s.sin6_addr = a6; sa->assign((char *)&s, sizeof(s)); }
	/* an address of the other family: refused or taken as it is */
	return is4 == !six ? GOOD : ANY;
}
/* parses into memory of exactly n bytes; -1000 if refused */
static int do_parse(const std::string &t, uint32_t n, Bytes *out)
{
	Exact x(t, true);
	char *m = (char *)malloc(n ? n : 1); memset(m, 0xa5, n ? n : 1);
	uint32_t len = n;
	int r = pomp_addr_parse(x.p, (struct sockaddr *)m, &len);
	if (r == 0) { MC_CHECK(len <= n, "parsing \"%s\" into %u bytes gave length %u", t.c_str(), n, len); out->assign(m, len); }
	else MC_CHECK(r < 0, "parsing \"%s\" returned %d", t.c_str(), r);
	free(m);
	return r;
}
static Bytes do_format(const Bytes &sa, uint32_t n, int *r)
{
	Exact x(sa);
	char *m = (char *)malloc(n ? n : 1); memset(m, 0xa5, n ? n : 1);
	*r = pomp_addr_format(m, n, (struct sockaddr *)x.p, (uint32_t)sa.size());
	Bytes o;
	if (*r == 0) { MC_CHECK(n > 0 && memchr(m, 0, n), "formatting %s into %u bytes is not terminated", hexs(sa), n); o = m; }
	free(m);
	return o;
}
static void one_text(const std::string &t)
{
	Bytes want, got;
	Verdict v = ref_parse(t, &want);
	int r = do_parse(t, sizeof(struct sockaddr_storage), &got);
	if (v == BAD) MC_CHECK(r < 0, "address text \"%s\" accepted as %s", t.c_str(), hexs(got));
	if (v == GOOD) { MC_CHECK(r == 0, "address text \"%s\" refused: %d", t.c_str(), r); MC_CHECK(got == want, "address text \"%s\" gives %s instead of %s", t.c_str(), hexs(got), hexs(want)); }
	if (v == ANY && r == 0 && !want.empty()) MC_CHECK(got == want, "address text \"%s\" gives %s instead of %s", t.c_str(), hexs(got), hexs(want));
	if (r == 0) {
		int fr; Bytes s = do_format(got, 256, &fr), back;
		MC_CHECK(fr == 0, "address of \"%s\" cannot be formatted: %d", t.c_str(), fr);
		int pr = do_parse(s, sizeof(struct sockaddr_storage), &back);
		MC_CHECK(pr == 0 && back == got, "\"%s\" parses to %s, formatted as \"%s\", which parses to %s", t.c_str(), hexs(got), s.c_str(), pr == 0 ? hexs(back) : "nothing");
		if (v == GOOD) { sa_family_t f; memcpy(&f, got.data(), sizeof(f)); const char *pre = f == AF_UNIX ? "unix:" : f == AF_INET ? "inet:" : "inet6:"; MC_CHECK(!s.compare(0, strlen(pre), pre), "formatted as \"%s\"", s.c_str()); 
			if (f == AF_UNIX) MC_CHECK(s == t || (t == "unix:" && s == "unix:@"), "unix address \"%s\" formatted as \"%s\"", t.c_str(), s.c_str()); }
		/* every size of destination */
		MC_CHECK(pomp_addr_is_unix((struct sockaddr *)got.data(), got.size()) == (t.compare(0, 5, "unix:") == 0), "pomp_addr_is_unix of \"%s\" is wrong", t.c_str());
	}
}
static const char *VALID[] = { "inet:127.0.0.1:5656", "inet:0.0.0.0:0", "inet:255.255.255.255:65535", "inet:10.0.0.1:80", "inet6:::1:5656", "inet6::::65535", "inet6:fe80::1:2:3:4:443", "inet6:2001:db8:85a3:8d3:1319:8a2e:370:7348:1", "inet6:::ffff:1.2.3.4:99", "unix:/tmp/foo.sock", "unix:@abstract", "unix:a", "unix:", "unix:@", "unix:@a:b", "inet:1.2.3.4:00080" };
static void c17_edits()
{
	std::string t = VALID[pick(sizeof(VALID) / sizeof(*VALID), "text")];
	uint64_t n = 0;
	one_text(t);
	static const char A[] = ":.0159afFx@/%inetu6 -\x01\xff,[]";
	for (size_t k = 0; k <= t.size(); k++) {
		for (const char *a = A; *a; a++) {
			std::string q = t; q.insert(k, 1, *a); one_text(q); n++;
			if (k < t.size()) { q = t; q[k] = *a; one_text(q); n++; }
			if (thorough() || t.size() < 14) for (size_t l = k + 1; l <= t.size(); l++) for (const char *b = A; *b; b += thorough() ? 1 : 3) { q = t; q.insert(l, 1, *b); q.insert(k, 1, *a); one_text(q); n++; }
		}
		if (k < t.size()) { std::string q = t; q.erase(k, 1); one_text(q); n++; one_text(t.substr(0, k)); n++; one_text(t.substr(k)); n++;
			for (size_t l = k; l < t.size(); l++) { std::string q2 = t; q2.erase(k, l - k + 1); one_text(q2); n++; } }
		heartbeat();
	}
	count(n);
}
static void c17_short()
{
	static const char *PRE[] = { "inet:", "inet6:", "inet:1.2.3.4:", "inet6:::1:", "inet:1.2.3.", "unix:", "" };
	static const char A[] = ":.019f-@%";
	int p = pick(7, "prefix"), a = pick(10, "char"), b = a == 9 ? 0 : pick(9, "char");
	std::vector<std::string> w;
	if (a == 9) { w.push_back(""); for (int k = 0; k < 9; k++) w.push_back(std::string(1, A[k])); }
	else { w.push_back(std::string() + A[a] + A[b]); }
	int maxl = thorough() ? 6 : 5; uint64_t n = 0;
	for (size_t i = 0; i < w.size(); i++) {
		std::string t = w[i];
		one_text(PRE[p] + t); n++;
		if (a != 9 && (int)t.size() < maxl) for (int k = 0; k < 9; k++) w.push_back(t + A[k]);
		if ((i & 63) == 0) heartbeat();
	}
	count(n);
}
static void c17_ports()
{
	int six = pick(2, "family"), part = pick(16, "part"); uint64_t n = 0;
	char t[64];
	for (int p = part; p < 70000; p += 16) { snprintf(t, 64, six ? "inet6:fe80::2:%d" : "inet:9.8.7.6:%d", p); one_text(t); n++; if ((n & 255) == 0) heartbeat(); }
	if (part == 0) for (const char *s : { "4294967296", "4294967376", "18446744073709551616", "99999999999999999999", "65536", "131072", "-1", "-65456", "-80" }) { snprintf(t, 64, six ? "inet6:::1:%s" : "inet:1.1.1.1:%s", s); one_text(t); n++; }
	count(n);
}
static void c17_lengths()
{
	/* paths of every length, every size of the destination of both directions */
	int l = pick(130, "length"), abs = pick(2, "abstract");
	std::string path; for (int k = 0; k < l; k++) path += (char)(k == 0 && abs ? '@' : 'a' + k % 26);
	std::string t = "unix:" + path;
	one_text(t);
	uint64_t n = 1;
	Bytes want; Verdict v = ref_parse(t, &want);
	for (uint32_t c = 0; c <= 130; c++) { Bytes got; int r = do_parse(t, c, &got); if (c < sizeof(struct sockaddr_un) || v == BAD) MC_CHECK(r < 0, "\"%s\" parsed into only %u bytes", t.c_str(), c); else MC_CHECK(r == 0 && got == want, "\"%s\" not parsed into %u bytes", t.c_str(), c); n++; }
	if (v == GOOD) { int r; Bytes full = do_format(want, 512, &r); for (uint32_t c = 0; c <= full.size() + 3; c++) { Bytes s = do_format(want, c, &r); n++;
		if (c == 0) MC_CHECK(r < 0, "formatted into nothing"); else if (c > full.size()) MC_CHECK(r == 0 && s == full, "formatted differently into %u bytes", c); else if (r == 0) MC_CHECK(s == full.substr(0, c - 1), "cut text \"%s\" is no prefix of \"%s\"", s.c_str(), full.c_str()); } }
	/* socket addresses whose path is not terminated */
	if (l >= 1) {
		struct sockaddr_un u; memset(&u, 0, sizeof(u)); u.sun_family = AF_UNIX;
		for (int k = 0; k < l && k < 108; k++) u.sun_path[k] = k == 0 && abs ? 0 : 'p';
		Bytes sa((char *)&u, sizeof(u)); int r; Bytes s = do_format(sa, 300, &r); n++;
		size_t m = std::min(l, 108);
		Bytes w = abs ? "unix:@" + std::string(m - 1, 'p') : "unix:" + std::string(m, 'p');
		MC_CHECK(r == 0 && s == w, "unix address with a path of %zu bytes formatted as \"%s\"", m, s.c_str());
		for (uint32_t c = 1; c <= w.size() + 1; c += 7) { do_format(sa, c, &r); n++; }
	}
	count(n);
}
static void c17_format()
{
	/* every family, every length of the socket address, every size of text */
	static const char *T[] = { "inet:255.255.255.255:65535", "inet6:2001:db8:85a3:8d3:1319:8a2e:370:7348:65535", "unix:/tmp/x", "unix:@y" };
	int which = pick(6, "address"); uint64_t n = 0;
	Bytes sa;
	if (which < 4) { Bytes t; ref_parse(T[which], &sa); } else { sa.assign(sizeof(struct sockaddr_storage), '\x11'); sa_family_t f = which == 4 ? AF_UNSPEC : 77; memcpy(&sa[0], &f, sizeof(f)); }
	if (which < 4) for (int pad = 0; pad < 2; pad++) for (size_t len = 2; len <= sa.size(); len++) for (uint32_t c : { 1u, 5u, 20u, 64u, 200u }) {
		int r; Bytes s = do_format(sa.substr(0, len), c, &r); n++;
		if (r == 0 && c == 200) { Bytes back; int pr = do_parse(s, 128, &back); if (len == sa.size()) MC_CHECK(pr == 0 && back == sa, "\"%s\" formatted as \"%s\"", T[which], s.c_str()); else MC_CHECK(pr == 0 && back == sa, "address of %zu bytes of \"%s\" formatted as \"%s\"", len, T[which], s.c_str()); }
		if (len < sizeof(struct sockaddr)) MC_CHECK(r < 0, "an address of %zu bytes was formatted", len);
	}
	else for (uint32_t c = 1; c < 64; c++) { int r; do_format(sa, c, &r); n++; }
	for (size_t len = 0; len <= sa.size(); len++) { Exact x(sa.substr(0, len)); int u = pomp_addr_is_unix((struct sockaddr *)x.p, (uint32_t)len); sa_family_t f = 0; if (len >= 2) memcpy(&f, sa.data(), 2); MC_CHECK(!!u == (f == AF_UNIX), "pomp_addr_is_unix of %zu bytes of family %d is %d", len, f, u); n++; }
	MC_CHECK(pomp_addr_is_unix(nullptr, 100) == 0, "pomp_addr_is_unix of nothing");
	count(n);
}
/* all bytes of addresses pass through both directions */
static void c17_addresses()
{
	int six = pick(2, "family"), part = pick(16, "part"); uint64_t n = 0;
	for (int pos = 0; pos < (six ? 16 : 4); pos++) for (int x = part; x < 256; x += 16) for (int port : { 1, 255, 256, 32768 }) {
		Bytes sa;
		if (six) { struct sockaddr_in6 s; memset(&s, 0, sizeof(s)); s.sin6_family = AF_INET6; s.sin6_port = htons(port); for (int k = 0; k < 16; k++) s.sin6_addr.s6_addr[k] = k == pos ? x : pos % 3 == 0 ? 0 : pos % 3 == 1 ? 0xff : k * 17; sa.assign((char *)&s, sizeof(s)); }
		else { struct sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons(port); uint8_t b[4] = { 10, 200, 0, 255 }; b[pos] = x; memcpy(&s.sin_addr, b, 4); sa.assign((char *)&s, sizeof(s)); }
		int r; Bytes t = do_format(sa, 128, &r); MC_CHECK(r == 0, "address %s not formatted: %d", hexs(sa), r);
		Bytes back; r = do_parse(t, 128, &back); MC_CHECK(r == 0 && back == sa, "address %s formatted as \"%s\" which parses to %s", hexs(sa), t.c_str(), r == 0 ? hexs(back) : "nothing"); n++;
		char ip[64]; if (six) { inet_ntop(AF_INET6, sa.data() + 8, ip, 64); } else inet_ntop(AF_INET, sa.data() + 4, ip, 64);
		char w[128]; snprintf(w, 128, "%s:%s:%d", six ? "inet6" : "inet", ip, port);
		Bytes b2; r = do_parse(w, 128, &b2); MC_CHECK(r == 0 && b2 == sa, "\"%s\" parses to %s instead of %s", w, r == 0 ? hexs(b2) : "nothing", hexs(sa));
		for (uint32_t c = 0; c < sa.size(); c += 5) { Bytes z; MC_CHECK(do_parse(t, c, &z) < 0, "\"%s\" parsed into only %u bytes", t.c_str(), c); }
	}
	count(n);
}
static void c17_real()
{
	static const char *T[] = { "unix:/tmp/x", "unix:x", "unix:@x", "unix:", "inet:1.2.3.4:80", "unix", "", "unix:@", "UNIX:/a", "inet6:::1:80", "unix:/%s%n" };
	static const char *R[] = { nullptr, "", "/root", "r%d" };
	std::string t = T[pick(11, "text")]; const char *root = R[pick(4, "root")];
	if (root) simk::env["PRODUCT_ROOT_CFG"] = root;
	simk::cfg.faults = simk::F_MALLOC;
	Exact x(t, true); char *o = nullptr;
	int r = pomp_addr_get_real_addr(x.p, &o);

	if (r != 0) { MC_CHECK(simk::faults_injected > 0, "pomp_addr_get_real_addr(\"%s\") failed: %d", t.c_str(), r); return; }
	std::string w = t; if (root && !t.compare(0, 5, "unix:") && t[5] != '@') w = std::string("unix:") + root + t.substr(5);
	MC_CHECK(w == o, "real address of \"%s\" with root \"%s\" is \"%s\"", t.c_str(), root ? root : "", o);
	simk::lib_free(o);
}
static void c17_nomem()
{
	std::string t = VALID[pick(sizeof(VALID) / sizeof(*VALID), "text")];
	simk::cfg.faults = simk::F_MALLOC;
	Bytes got, want; ref_parse(t, &want);
	int r = do_parse(t, 128, &got);
	MC_CHECK(r == 0 ? got == want : simk::faults_injected > 0, "parsing \"%s\": %d", t.c_str(), r);
}
static Reg r17([] {
	add("C17", "edits", c17_edits);
	add("C17", "short", c17_short);
	add("C17", "ports", c17_ports);
	add("C17", "lengths", c17_lengths);
	add("C17", "format", c17_format);
	add("C17", "addresses", c17_addresses);
	add("C17", "real", c17_real, 1, 1);
	add("C17", "nomem", c17_nomem, 1, 1);
});

/* ------------------------------------------------------------------ C18 */
/* the reference: an array of bytes, some with a value that is not defined (exposed by a length above what was written) */
struct RBuf {
	std::vector<int> d;        /* -1: unspecified */
	size_t cap = 0; bool capexact = true; int refs = 1;
	/* bytes written at some time beyond the length keep no promise */
};
struct LBuf { struct pomp_buffer *b = nullptr; RBuf r; };

static void bcheck(LBuf &l, const char *after)
{
	const void *cd = (void *)1; size_t len = 99, cap = 99;
	int r = pomp_buffer_get_cdata(l.b, &cd, &len, &cap);
	MC_CHECK(r == 0, "%s: pomp_buffer_get_cdata %d", after, r);
	MC_CHECK(len == l.r.d.size(), "%s: length %zu instead of %zu", after, len, l.r.d.size());
	MC_CHECK(cap >= len, "%s: capacity %zu below the length %zu", after, cap, len);
	if (l.r.capexact) MC_CHECK(cap == l.r.cap, "%s: capacity %zu instead of %zu", after, cap, l.r.cap); else MC_CHECK(cap >= l.r.cap, "%s: capacity %zu below %zu", after, cap, l.r.cap);
	for (size_t k = 0; k < len; k++) MC_CHECK(l.r.d[k] < 0 || ((const uint8_t *)cd)[k] == l.r.d[k], "%s: byte %zu is %02x instead of %02x", after, k, ((const uint8_t *)cd)[k], l.r.d[k]);
	MC_CHECK(!!pomp_buffer_is_shared(l.b) == (l.r.refs > 1), "%s: shared is %d with %d references", after, pomp_buffer_is_shared(l.b), l.r.refs);
	void *dd = nullptr; size_t l2 = 0, c2 = 0;
	r = pomp_buffer_get_data(l.b, &dd, &l2, &c2);
	if (l.r.refs > 1) MC_CHECK(r < 0, "%s: writable data of a shared buffer given", after);
	else MC_CHECK(r == 0 && dd == cd && l2 == len && c2 == cap, "%s: pomp_buffer_get_data disagrees", after);
	/* all readable: first and last byte of the capacity as well (address sanitizer) */
	if (cap) { volatile char x = ((const char *)cd)[0]; x = ((const char *)cd)[cap - 1]; (void)x; }
	observe(len * 31 + cap); 
}
static const size_t SZ[] = { 0, 1, 5, 255, 256, 257, 300 };
static uint8_t g_fill;
static Bytes pattern(size_t n) { Bytes b(n, 0); for (size_t k = 0; k < n; k++) b[k] = (char)(g_fill + k * 3); g_fill += 41; return b; }

struct Op { int k, a, b; };
enum { O_COPY, O_REF, O_UNREF, O_SETCAP, O_ENSURE, O_SETLEN, O_APPEND, O_APPENDBUF, O_WRITE, O_READ, O_CREAD, O_FILL, O_DROP };
static std::vector<Op> bops(bool full)
{
	std::vector<Op> v;
	v.push_back({ O_COPY, 0, 0 }); v.push_back({ O_REF, 0, 0 }); v.push_back({ O_UNREF, 0, 0 });
	for (int s : { 0, 1, 256, 300 }) v.push_back({ O_SETCAP, s, 0 });
	for (int s : { 0, 257, -1 }) v.push_back({ O_ENSURE, s, 0 });
	for (int s : { 0, 3, 256, -1 }) v.push_back({ O_SETLEN, s, 0 });
	for (int s : { 0, 1, 255, 256 }) v.push_back({ O_APPEND, s, 0 });
	v.push_back({ O_APPENDBUF, 0, 0 }); v.push_back({ O_APPENDBUF, 1, 0 });
	for (int p : { 0, 2, 300 }) for (int s : { 1, 4, 256 }) v.push_back({ O_WRITE, p, s });
	v.push_back({ O_WRITE, -1, 1 }); v.push_back({ O_WRITE, -2, 4 });
	v.push_back({ O_FILL, 0, 0 });
	if (full) { v.push_back({ O_SETCAP, 5, 0 }); v.push_back({ O_SETCAP, -1, 0 }); v.push_back({ O_ENSURE, 1, 0 }); v.push_back({ O_SETLEN, 1, 0 }); v.push_back({ O_WRITE, 256, 0 }); v.push_back({ O_WRITE, 255, 2 }); }
	return v;
}
static size_t szof(int v) { return v == -1 ? SIZE_MAX : v == -2 ? SIZE_MAX - 1 : (size_t)v; }
/* reading never changes anything and gives exactly the bytes in range */
static void breads(LBuf &l, const char *after)
{
	size_t len = l.r.d.size();
	const size_t P[] = { 0, 1, len ? len - 1 : 0, len, len + 1, SIZE_MAX, SIZE_MAX - 3 }, N[] = { 0, 1, 4, len, len + 1, SIZE_MAX, SIZE_MAX - 3 };
	for (size_t p : P) for (size_t n : N) {
		bool ok = n <= len && p <= len - n;
		size_t pos = p;
		char *m = (char *)malloc(n && n < 100000 ? n : 1);
		int r = pomp_buffer_read(l.b, &pos, m, n);
		MC_CHECK(ok ? r == 0 : r < 0, "%s: reading %zu bytes at %zu of %zu returned %d", after, n, p, len, r);
		MC_CHECK(pos == (ok ? p + n : p), "%s: position %zu after reading %zu bytes at %zu of %zu", after, pos, n, p, len);
		if (ok) for (size_t k = 0; k < n; k++) MC_CHECK(l.r.d[p + k] < 0 || (uint8_t)m[k] == l.r.d[p + k], "%s: read byte %zu is %02x instead of %02x", after, p + k, (uint8_t)m[k], l.r.d[p + k]);
		free(m);
		const void *c = nullptr; pos = p;
		r = pomp_buffer_cread(l.b, &pos, &c, n);
		MC_CHECK(ok ? r == 0 : r < 0, "%s: pomp_buffer_cread of %zu bytes at %zu of %zu returned %d", after, n, p, len, r);
		MC_CHECK(pos == (ok ? p + n : p), "%s: position %zu after pomp_buffer_cread", after, pos);
		if (ok) { const void *cd; pomp_buffer_get_cdata(l.b, &cd, nullptr, nullptr); MC_CHECK(n == 0 || c == (const char *)cd + p, "%s: pomp_buffer_cread points elsewhere", after); }
	}
}
static char g_after[200];
/* one operation on l, o is the other buffer */
static void bapply(LBuf &l, LBuf &o, const Op &op, bool nofault)
{
	RBuf &r = l.r; bool sh = r.refs > 1;
	size_t a = szof(op.a), b = szof(op.b);
	int res;
	auto exp = [&](bool ok, const char *what) {
		if (ok && res < 0 && !nofault && simk::faults_injected) return false;
		MC_CHECK(ok ? res == 0 : res < 0, "%s after %s: returned %d", what, g_after, res);
		return ok;
	};
	auto grow = [&](size_t n) { if (n > r.cap) { r.cap = n; r.capexact = false; } };
	auto put = [&](size_t p, const Bytes &d) { while (r.d.size() < p + d.size()) r.d.push_back(-1); for (size_t k = 0; k < d.size(); k++) r.d[p + k] = (uint8_t)d[k]; };
	switch (op.k) {
	case O_COPY: {
		struct pomp_buffer *c = pomp_buffer_new_copy(l.b);
		if (!c) { MC_CHECK(!nofault && simk::faults_injected, "pomp_buffer_new_copy failed"); break; }
		LBuf t; t.b = c; t.r.d = r.d; t.r.cap = r.d.size(); t.r.capexact = false; bcheck(t, "copy");
		/* the copy takes the place of the other buffer, and is independent */
		for (int k = 0; k < o.r.refs; k++) pomp_buffer_unref(o.b);
		o = t; break; }
	case O_REF: if (r.refs < 3) { pomp_buffer_ref(l.b); r.refs++; } break;
	case O_UNREF: if (r.refs > 1) { pomp_buffer_unref(l.b); r.refs--; }
		else { pomp_buffer_unref(l.b); l.b = pomp_buffer_new(0); if (!l.b) { simk::cfg.faults = 0; l.b = pomp_buffer_new(0); } l.r = RBuf(); } break;
	case O_SETCAP: res = pomp_buffer_set_capacity(l.b, a); if (exp(!sh && a >= r.d.size() && a < (1u << 30), "pomp_buffer_set_capacity")) { r.cap = a; r.capexact = true; } break;
	case O_ENSURE: res = pomp_buffer_ensure_capacity(l.b, a); if (exp(!sh && a < (1u << 30), "pomp_buffer_ensure_capacity")) grow(a); break;
	case O_SETLEN: { size_t cap; pomp_buffer_get_cdata(l.b, nullptr, nullptr, &cap);
		res = pomp_buffer_set_len(l.b, a); if (exp(!sh && a <= cap, "pomp_buffer_set_len")) r.d.resize(a, -1); break; }
	case O_APPEND: { Bytes d = pattern(a); Exact e(d); res = pomp_buffer_append_data(l.b, e.p, a); if (exp(!sh, "pomp_buffer_append_data")) { size_t p = r.d.size(); grow(p + a); put(p, d); } break; }
	case O_APPENDBUF: { LBuf &s = op.a ? l : o; auto d = s.r.d;
		/* appending nothing has nothing to refuse */
		res = pomp_buffer_append_buffer(l.b, s.b); if (d.empty()) { if (!sh || res == 0) exp(true, "pomp_buffer_append_buffer"); break; }
		if (exp(!sh, "pomp_buffer_append_buffer")) { grow(r.d.size() + d.size()); r.d.insert(r.d.end(), d.begin(), d.end()); } break; }
	case O_WRITE: { Bytes d = pattern(b); Exact e(d); size_t pos = a;
		bool fits = a < (1u << 30) && a + b < (1u << 30);
		res = pomp_buffer_write(l.b, &pos, e.p, b);
		if (exp(!sh && fits, "pomp_buffer_write")) { grow(a + b); if (b || a > r.d.size()) put(a, d); MC_CHECK(pos == a + b, "position %zu after writing %zu bytes at %zu", pos, b, a); 
			size_t len; pomp_buffer_get_cdata(l.b, nullptr, &len, nullptr); if (b == 0 && a > 0) { /* an empty write beyond the end may or may not extend */ MC_CHECK(len == r.d.size(), "length after an empty write"); } }
		else MC_CHECK(pos == a, "position changed by a refused write"); break; }
	case O_FILL: { void *d; size_t len, cap; res = pomp_buffer_get_data(l.b, &d, &len, &cap); if (sh) { MC_CHECK(res < 0, "writable data of a shared buffer"); break; }
		/* direct access to the whole capacity */
		if (cap) memset(d, g_fill, cap); for (auto &x : r.d) x = g_fill; g_fill += 17; break; }
	}
}
static LBuf start(int how)
{
	LBuf l; void *d = (void *)7;
	switch (how) {
	case 0: l.b = pomp_buffer_new(0); break;
	case 1: l.b = pomp_buffer_new(300); l.r.cap = 300; break;
	case 2: { Bytes p = pattern(5); Exact e(p); l.b = pomp_buffer_new_with_data(e.p, 5); for (char c : p) l.r.d.push_back((uint8_t)c); l.r.cap = 5; break; }
	case 3: l.b = pomp_buffer_new_get_data(256, &d); l.r.cap = 256; if (l.b) { const void *c; pomp_buffer_get_cdata(l.b, &c, 0, 0); MC_CHECK(c == d, "pomp_buffer_new_get_data gives another pointer"); } break;
	case 4: { char one; l.b = pomp_buffer_new_with_data(&one, 0); break; }
	}
	return l;
}
static void c18_sequences()
{
	auto ops = bops(thorough()); int n = (int)ops.size(), depth = thorough() ? 5 : 4;
	g_fill = 1;
	/* enumerate the tail by replaying: the first operations are choices, the rest is nested loops over fresh buffers */
	int s = thorough() ? pick(5, "start") : (int[]){ 0, 2, 3 }[pick(3, "start")];
	int a = pick(n * 2, "operation"), b = pick(n * 2, "operation");
	uint64_t cnt = 0;
	std::vector<int> seq(depth); seq[0] = a; seq[1] = b;
	int total = 1; for (int k = 2; k < depth; k++) total *= n;
	for (int x = 0; x < total; x++) {
		int y = x; for (int k = 2; k < depth; k++) { seq[k] = y % n; y /= n; }
		LBuf l[2]; l[0] = start(s); l[1] = start((s + 2) % 5);
		g_after[0] = 0; size_t ga = 0;
		for (int k = 0; k < depth; k++) {
			int w = seq[k] >= n; const Op &op = ops[seq[k] % n];
			bapply(l[w], l[!w], op, true);
			if (ga < 150) ga += snprintf(g_after + ga, sizeof(g_after) - ga, "%s%d:%d(%d,%d)", k ? " " : "", w, op.k, op.a, op.b);
			if (k + 1 >= depth - 1 || x == 0) { bcheck(l[0], g_after); bcheck(l[1], g_after); }
			if (k + 1 == depth && (x % 7 == 0)) { breads(l[0], g_after); }
		}
		for (auto &q : l) for (int k = 0; k < q.r.refs; k++) pomp_buffer_unref(q.b);
		cnt++; if ((cnt & 255) == 0) heartbeat();
	}
	MC_CHECK(simk::lib_allocs() == 0, "buffers leaked");
	count(cnt);
}
static void c18_pairs_reads()
{
	auto ops = bops(true); int n = (int)ops.size();
	int s = pick(5, "start"), a = pick(n, "operation"), b = pick(n, "operation");
	g_fill = 1; g_after[0] = 0;
	LBuf l[2]; l[0] = start(s); l[1] = start(2);
	breads(l[0], "start"); bapply(l[0], l[1], ops[a], true); bcheck(l[0], "first"); breads(l[0], "first"); bapply(l[0], l[1], ops[b], true); bcheck(l[0], "second"); bcheck(l[1], "second"); breads(l[0], "second"); breads(l[1], "second");
	for (auto &q : l) for (int k = 0; k < q.r.refs; k++) pomp_buffer_unref(q.b);
	count(1);
}
static void c18_nomem()
{
	auto ops = bops(true); int n = (int)ops.size();
	int s = pick(5, "start"), a = pick(n, "operation"), b = pick(n, "operation");
	g_fill = 1; g_after[0] = 0;
	LBuf l[2]; l[0] = start(s); l[1] = start(2);
	simk::cfg.faults = simk::F_MALLOC;
	bapply(l[0], l[1], ops[a], false); bcheck(l[0], "first"); bcheck(l[1], "first");
	bapply(l[0], l[1], ops[b], false); bcheck(l[0], "second"); bcheck(l[1], "second"); breads(l[0], "second");
	for (auto &q : l) for (int k = 0; k < q.r.refs; k++) pomp_buffer_unref(q.b);
}
static void c18_limits()
{
	/* sizes and offsets near every power of two: refused or done, never wrapped */
	static const uint64_t BASE[] = { 0, 1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 62, 1ull << 63, 0 };
	uint64_t base = BASE[pick(8, "base")]; int neg = pick(2, "sign"); int64_t d = pick(7, "offset") - 3; d *= pick(2, "step") ? 1 : 100;
	size_t v = (neg ? 0 - base : base) + d;
	int what = pick(6, "operation"), other = pick(4, "other");
	size_t w = (size_t[]){ 0, 1, 255, SIZE_MAX - 1 }[other];
	bool big = v > (1u << 24);
	LBuf l = start(2); size_t p = v; char c[512]; memset(c, 7, sizeof(c)); const void *q; int r = 0;
	switch (what) {
	case 0: r = pomp_buffer_set_capacity(l.b, v); if (r == 0) { l.r.cap = v; } MC_CHECK(!big || r < 0, "capacity %zu accepted", v); break;
	case 1: r = pomp_buffer_ensure_capacity(l.b, v); if (r == 0 && v > l.r.cap) { l.r.cap = v; l.r.capexact = false; } MC_CHECK(!big || r < 0, "capacity %zu accepted", v); break;
	case 2: r = pomp_buffer_set_len(l.b, v); MC_CHECK((v <= 5) == (r == 0), "length %zu: %d", v, r); if (r == 0) l.r.d.resize(v, -1); break;
	case 3: if (w <= 255) { r = pomp_buffer_write(l.b, &p, c, w); bool fits = !big; MC_CHECK(fits ? r == 0 : r < 0, "writing %zu bytes at %zu returned %d", w, v, r); if (r == 0) { if (v + w > l.r.cap) { l.r.cap = v + w; l.r.capexact = false; } if (v + w > l.r.d.size()) l.r.d.resize(v + w, -1); for (size_t k = 0; k < w; k++) l.r.d[v + k] = 7; } else MC_CHECK(p == v, "position changed"); }
		else if (v > 5) { /* a huge size cannot be honoured */ size_t p2 = v; r = pomp_buffer_read(l.b, &p2, c, w); MC_CHECK(r < 0, "reading %zu bytes at %zu accepted", w, v); } break;
	case 4: r = pomp_buffer_read(l.b, &p, c, w); MC_CHECK((w <= 5 && v <= 5 - w) == (r == 0), "reading %zu bytes at %zu of 5 returned %d", w, v, r); break;
	case 5: r = pomp_buffer_cread(l.b, &p, &q, v); MC_CHECK((v <= 5 && v <= 5 - v) == (r == 0), "zero-copy reading %zu bytes at %zu of 5 returned %d", v, v, r); { size_t z = w; r = pomp_buffer_cread(l.b, &z, &q, v); MC_CHECK((v <= 5 && w <= 5 - v) == (r == 0), "zero-copy reading %zu bytes at %zu of 5 returned %d", v, w, r); } break;
	}
	bcheck(l, "limit operation");
	pomp_buffer_unref(l.b);
	count(1);
}
static void c18_null()
{
	struct pomp_buffer *b = pomp_buffer_new(8); size_t p = 0; char c = 0; const void *q;
	MC_CHECK(pomp_buffer_set_capacity(nullptr, 4) < 0 && pomp_buffer_ensure_capacity(nullptr, 4) < 0 && pomp_buffer_set_len(nullptr, 0) < 0, "null buffer accepted");
	MC_CHECK(pomp_buffer_get_data(nullptr, 0, 0, 0) < 0 && pomp_buffer_get_cdata(nullptr, 0, 0, 0) < 0 && pomp_buffer_append_data(nullptr, &c, 1) < 0 && pomp_buffer_append_data(b, nullptr, 1) < 0, "null pointer accepted");
	MC_CHECK(pomp_buffer_append_buffer(nullptr, b) < 0 && pomp_buffer_append_buffer(b, nullptr) < 0 && pomp_buffer_write(nullptr, &p, &c, 1) < 0 && pomp_buffer_write(b, nullptr, &c, 1) < 0 && pomp_buffer_write(b, &p, nullptr, 1) < 0, "null pointer accepted");
	MC_CHECK(pomp_buffer_read(nullptr, &p, &c, 1) < 0 && pomp_buffer_read(b, nullptr, &c, 1) < 0 && pomp_buffer_read(b, &p, nullptr, 1) < 0 && pomp_buffer_cread(nullptr, &p, &q, 1) < 0 && pomp_buffer_cread(b, nullptr, &q, 1) < 0 && pomp_buffer_cread(b, &p, nullptr, 1) < 0, "null pointer accepted");
	MC_CHECK(pomp_buffer_new_copy(nullptr) == nullptr && pomp_buffer_is_shared(nullptr) == 0, "null buffer accepted");
	MC_CHECK(pomp_buffer_get_data(b, 0, 0, 0) == 0 && pomp_buffer_get_cdata(b, 0, 0, 0) == 0, "optional results refused");
	struct pomp_buffer *e = pomp_buffer_new_get_data(0, nullptr); MC_CHECK(e, "pomp_buffer_new_get_data"); pomp_buffer_unref(e); pomp_buffer_unref(b);
	count(20);
}
static Reg r18([] {
	add("C18", "sequences", c18_sequences);
	add("C18", "reads", c18_pairs_reads);
	add("C18", "limits", c18_limits);
	add("C18", "null", c18_null);
	add("C18", "nomem", c18_nomem, 1, 2);
});

/* ------------------------------------------------------------------ C19 */
/* reference of a message: nothing, being written, finished */
struct RMsg { bool noenc = false; int st = 0; uint32_t id = 0; std::vector<Val> v; int bufrefs = 0; };
struct LMsg { struct pomp_msg *m = nullptr; RMsg r; struct pomp_encoder *e = nullptr; struct pomp_buffer *held = nullptr; Bytes heldbytes; bool heldfinal = false; size_t heldown = 0; };

static void mcheck(LMsg &l, const char *after)
{
	MC_CHECK(pomp_msg_get_id(l.m) == l.r.id, "%s: message id %u instead of %u", after, pomp_msg_get_id(l.m), l.r.id);
	struct pomp_buffer *b = pomp_msg_get_buffer(l.m);
	MC_CHECK((b != nullptr) == (l.r.st != 0), "%s: buffer is %sthere", after, b ? "" : "not ");
	if (l.r.st == 2) { Bytes g = msg_bytes(l.m), w = ref::message(l.r.id, l.r.v); MC_CHECK(g == w, "%s: finished message is %s instead of %s", after, hexs(g), hexs(w)); }
	if (l.r.st == 1) {
		/* what is written so far is not a complete message */
		Bytes g = msg_bytes(l.m);
		struct pomp_msg *x = g.size() ? msg_of(g) : nullptr;
		MC_CHECK(!x, "%s: an unfinished message looks complete: %s", after, hexs(g));
	}
	if (l.held && l.heldfinal) MC_CHECK(buf_bytes(l.held) == l.heldbytes, "%s: a buffer held since the message was finished changed", after);
	observe(l.r.st);
}
static const char *MOPS[] = { "init", "enc", "encstr", "finish", "clear", "write", "write-bad", "write-argv", "copy", "wrap", "hold", "release", "read", "dump", "recreate", "write-empty" };
static const int NM = 16;
static void mapply(LMsg &l, LMsg &o, int op, const char *after)
{
	RMsg &r = l.r; int res;
	bool shared = l.held && l.r.st && l.held == pomp_msg_get_buffer(l.m);
	auto ex = [&](bool ok) { bool okk = ok; if (okk && res != 0 && simk::faults_injected) okk = false; MC_CHECK(okk ? res == 0 : res < 0, "%s returned %d (%s)", MOPS[op], res, after); return okk; };
	switch (op) {
	case 0: res = pomp_msg_init(l.m, 7); if (ex(r.st == 0)) { r.noenc = false; r.st = 1; r.id = 7; r.v.clear(); pomp_encoder_init(l.e, l.m); } else if (r.st == 0) { pomp_msg_clear(l.m); } break;
	case 1: if (r.st == 0 || (r.st == 1 && r.noenc)) break; res = pomp_encoder_write_u32(l.e, 300 + (uint32_t)r.v.size()); if (ex(r.st == 1 && !shared)) r.v.push_back(ref::vu(ref::U32, 300 + r.v.size())); else if (r.st == 1 && simk::faults_injected) { pomp_msg_clear(l.m); r = RMsg(); } break;
	case 2: if (r.st == 0 || (r.st == 1 && r.noenc)) break; res = pomp_encoder_write(l.e, "%s%hhd", "ab", -1); if (ex(r.st == 1 && !shared)) { r.v.push_back(ref::vs("ab")); r.v.push_back(ref::vi(ref::I8, -1)); } else if (r.st == 1 && simk::faults_injected) { pomp_msg_clear(l.m); r = RMsg(); } break;
	case 3: res = pomp_msg_finish(l.m); if (ex(r.st == 1 && !shared)) r.st = 2; break;
	case 4: res = pomp_msg_clear(l.m); ex(true); r = RMsg(); break;
	case 5: res = pomp_msg_write(l.m, 8, "%s%u", "xyz", 5u); if (ex(r.st == 0)) { r.st = 2; r.id = 8; r.v = { ref::vs("xyz"), ref::vu(ref::U32, 5) }; pomp_encoder_init(l.e, l.m); } else if (r.st == 0) { pomp_msg_clear(l.m); } break;
	case 6: { res = pomp_msg_write(l.m, 9, "%d%q", 1); MC_CHECK(res < 0, "a bad format was accepted");
		if (r.st == 0) { /* nothing complete may be left */
			Bytes g = pomp_msg_get_buffer(l.m) ? msg_bytes(l.m) : Bytes(); struct pomp_msg *x = g.size() ? msg_of(g) : nullptr; MC_CHECK(!x, "a failed write left the complete message %s", hexs(g)); pomp_msg_clear(l.m); }
		break; }
	case 7: { const char *av[] = { "12", "t" }; res = pomp_msg_write_argv(l.m, 0xffffffffu, "%d%s", 2, av); if (ex(r.st == 0)) { r.st = 2; r.id = 0xffffffffu; r.v = { ref::vi(ref::I32, 12), ref::vs("t") }; pomp_encoder_init(l.e, l.m); } else if (r.st == 0) { pomp_msg_clear(l.m); } break; }
	case 8: { /* the other becomes a copy of this */
		struct pomp_msg *c = pomp_msg_new_copy(l.m); if (!c) { MC_CHECK(simk::faults_injected > 0, "copy failed"); break; }
		if (o.held) { pomp_buffer_unref(o.held); o.held = nullptr; }
		pomp_msg_destroy(o.m); o.m = c; o.r = r;
		if (r.st) MC_CHECK(pomp_msg_get_buffer(c) != pomp_msg_get_buffer(l.m), "the copy shares the buffer of the original");
		/* continuing to write a copied unfinished message needs its own position: only finish or clear it */
		pomp_encoder_clear(o.e); o.r.noenc = true; break; }
	case 9: { if (r.st == 0) break; struct pomp_buffer *b = pomp_msg_get_buffer(l.m);
		struct pomp_msg *c = pomp_msg_new_with_buffer(b);
		if (r.st == 2) { if (!c) { MC_CHECK(simk::faults_injected > 0, "a finished message's buffer is refused"); break; } MC_CHECK(pomp_msg_get_buffer(c) == b, "the wrapping message has another buffer"); MC_CHECK(pomp_buffer_is_shared(b), "wrapping takes no reference");
			if (o.held) { pomp_buffer_unref(o.held); o.held = nullptr; } pomp_msg_destroy(o.m); o.m = c; o.r = r; pomp_encoder_init(o.e, o.m); }
		else MC_CHECK(!c, "an unfinished message's buffer is accepted"); break; }
	case 10: if (r.st && !l.held) { l.held = pomp_msg_get_buffer(l.m); pomp_buffer_ref(l.held); l.heldfinal = r.st == 2; l.heldbytes = buf_bytes(l.held); } break;
	case 11: if (l.held) { if (l.heldfinal) MC_CHECK(buf_bytes(l.held) == l.heldbytes, "held buffer changed"); pomp_buffer_unref(l.held); l.held = nullptr; } break;
	case 12: { if (r.st == 0) { uint32_t x; res = pomp_msg_read(l.m, "%u", &x); MC_CHECK(res < 0, "an empty message was read"); break; }
		if (r.st == 2 && r.v.size() && r.v[0].t == ref::U32) { uint32_t x = 0; res = pomp_msg_read(l.m, "%u", &x); MC_CHECK(res == 0 && x == r.v[0].u, "reading back gives %u (%d)", x, res); }
		break; }
	case 13: { char *s = nullptr; res = pomp_msg_adump(l.m, &s); if (r.st == 0) { MC_CHECK(res < 0 && !s, "an empty message was dumped"); break; }
		if (res == 0) { if (r.st == 2) MC_CHECK(ref::dump(r.id, r.v) == s, "dump is \"%s\"", s); simk::lib_free(s); } else MC_CHECK(r.st == 1 || simk::faults_injected, "dump failed %d", res); break; }
	case 14: { struct pomp_msg *n = pomp_msg_new(); if (!n) { MC_CHECK(simk::faults_injected > 0, "pomp_msg_new"); break; } pomp_encoder_clear(l.e); pomp_msg_destroy(l.m); l.m = n; r = RMsg(); break; }
	case 15: res = pomp_msg_write(l.m, 0, nullptr); if (ex(r.st == 0)) { r.st = 2; r.id = 0; r.v.clear(); pomp_encoder_init(l.e, l.m); } else if (r.st == 0) pomp_msg_clear(l.m); break;
	}
}
static void mstart(LMsg *l) { for (int k = 0; k < 2; k++) { l[k].m = pomp_msg_new(); l[k].e = pomp_encoder_new(); } }
static void mend(LMsg *l) { for (int k = 0; k < 2; k++) { if (l[k].held) pomp_buffer_unref(l[k].held); pomp_encoder_destroy(l[k].e); pomp_msg_destroy(l[k].m); } }
static void c19_sequences()
{
	int depth = thorough() ? 6 : 5;
	int a = pick(NM * 2, "operation"), b = pick(NM * 2, "operation"), c = pick(NM * 2, "operation");
	uint64_t cnt = 0; int total = 1; for (int k = 3; k < depth; k++) total *= NM * 2;
	std::vector<int> seq(depth); seq[0] = a; seq[1] = b; seq[2] = c;
	char after[300];
	/* both messages are alike: start with the first */
	if (a >= NM) prune();
	for (int x = 0; x < total; x++) {
		int y = x; for (int k = 3; k < depth; k++) { seq[k] = y % (NM * 2); y /= NM * 2; }
		LMsg l[2]; mstart(l); size_t n = 0; after[0] = 0;
		for (int k = 0; k < depth; k++) {
			int w = seq[k] >= NM, op = seq[k] % NM;
			mapply(l[w], l[!w], op, after);
			n += snprintf(after + n, sizeof(after) - n, "%s%d:%s", k ? " " : "", w, MOPS[op]);
			if (k + 2 >= depth) { mcheck(l[0], after); mcheck(l[1], after); }
		}
		mend(l); cnt++;
		if ((cnt & 127) == 0) heartbeat();
	}
	count(cnt);
}
static void c19_nomem()
{
	int a = pick(NM, "operation"), b = pick(NM * 2, "operation"), c = pick(NM * 2, "operation");
	LMsg l[2]; mstart(l);
	simk::cfg.faults = simk::F_MALLOC; simk::cfg.maxfaults = 2;
	for (int x : { a, b, c }) { mapply(l[x >= NM], l[x < NM], x % NM, MOPS[a]); }
	simk::cfg.faults = 0;
	for (int k = 0; k < 2; k++) { if (l[k].r.st != 1) mcheck(l[k], "lack of memory"); }
	/* still usable */
	for (int k = 0; k < 2; k++) { if (l[k].held) { pomp_buffer_unref(l[k].held); l[k].held = nullptr; } pomp_msg_clear(l[k].m); int r = pomp_msg_write(l[k].m, 5, "%s", "q"); MC_CHECK(r == 0, "message unusable after lack of memory: %d", r); MC_CHECK(msg_bytes(l[k].m) == ref::message(5, { ref::vs("q") }), "wrong message"); }
	mend(l);
}
/* buffers that are no complete message are refused, with every corruption of the header */
static void c19_wrap()
{
	Bytes good = ref::message(0x01020304, { ref::vs("abc") });
	int cut = pick((int)good.size() + 6, "length"); uint64_t n = 0;
	Bytes g = good; g.resize(cut, 'Z');
	auto t = [&](const Bytes &x) {
		struct pomp_buffer *b = pomp_buffer_new_with_data(x.data(), x.size());
		struct pomp_msg *m = pomp_msg_new_with_buffer(b);
		uint32_t sz = 0; if (x.size() >= 12) memcpy(&sz, x.data() + 8, 4);
		bool ok = x.size() >= 12 && !x.compare(0, 4, "POMP") && sz == x.size();
		MC_CHECK(ok == (m != nullptr), "buffer %s %s as message", hexs(x), m ? "accepted" : "refused");
		MC_CHECK(!!pomp_buffer_is_shared(b) == ok, "buffer %s: references wrong after wrapping", hexs(x));
		if (m) { MC_CHECK(msg_bytes(m) == x, "content"); uint32_t id; memcpy(&id, x.data() + 4, 4); MC_CHECK(pomp_msg_get_id(m) == id, "id"); struct pomp_encoder *e = pomp_encoder_new(); pomp_encoder_init(e, m); MC_CHECK(pomp_encoder_write_u8(e, 1) < 0, "a wrapped message can be written"); MC_CHECK(pomp_msg_finish(m) < 0, "a wrapped message can be finished again"); MC_CHECK(msg_bytes(m) == x, "content"); pomp_encoder_destroy(e); pomp_msg_destroy(m); }
		MC_CHECK(buf_bytes(b) == x, "buffer changed"); pomp_buffer_unref(b); n++;
	};
	t(g);
	for (size_t k = 0; k < g.size() && k < 12; k++) for (int x = 0; x < 256; x++) { Bytes q = g; q[k] = (char)x; t(q); if (k >= 8) { Bytes q2 = q; q2[11] = (char)0x80; t(q2); } }
	/* right size field for this length */
	if (g.size() >= 12) { Bytes q = g; uint32_t s = (uint32_t)g.size(); memcpy(&q[8], &s, 4); t(q); s++; memcpy(&q[8], &s, 4); t(q); s -= 2; memcpy(&q[8], &s, 4); t(q); }
	count(n);
}
static void c19_null()
{
	struct pomp_msg *m = pomp_msg_new(); char c[4]; char *s;
	MC_CHECK(pomp_msg_init(nullptr, 1) < 0 && pomp_msg_finish(nullptr) < 0 && pomp_msg_clear(nullptr) < 0 && pomp_msg_destroy(nullptr) < 0, "null message accepted");
	MC_CHECK(pomp_msg_new_copy(nullptr) == nullptr && pomp_msg_new_with_buffer(nullptr) == nullptr && pomp_msg_get_buffer(nullptr) == nullptr && pomp_msg_get_id(nullptr) == 0, "null message accepted");
	MC_CHECK(pomp_msg_write(nullptr, 1, "%d", 1) < 0 && pomp_msg_write_argv(nullptr, 1, nullptr, 0, nullptr) < 0 && pomp_msg_read(nullptr, nullptr) < 0 && pomp_msg_dump(nullptr, c, 4) < 0 && pomp_msg_adump(nullptr, &s) < 0, "null message accepted");
	MC_CHECK(pomp_msg_finish(m) < 0, "a message that was not begun was finished");
	pomp_msg_destroy(m); count(14);
}
static Reg r19([] {
	add("C19", "sequences", c19_sequences);
	add("C19", "wrap", c19_wrap);
	add("C19", "null", c19_null);
	add("C19", "nomem", c19_nomem, 1, 2);
});

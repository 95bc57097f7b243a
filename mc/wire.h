/* shared by the harnesses of the message layer */
#ifndef MC_WIRE_H
#define MC_WIRE_H
#include "simk.h"
#include "ref.h"
#include "libpomp.h"

namespace wire {
using ref::Val; using ref::Bytes;

/* one value together with a spelling in a format and a text argument */
struct Item { Val v; const char *wfmt, *rfmt; std::string text, text2; bool hastext2; };
inline Item it(Val v, const char *w, const char *r, const std::string &t) { return Item{v, w, r, t, "", false}; }
inline Item it2(Val v, const char *w, const char *r, const std::string &t, const std::string &t2) { return Item{v, w, r, t, t2, true}; }

inline const std::vector<Item> &items()
{
	static std::vector<Item> v;
	if (!v.empty()) return v;
	using namespace ref;
	v.push_back(it(vi(I8, -128), "%hhd", "%hhd", "-128"));
	v.push_back(it(vi(I8, 65), "%hhi", "%hhi", "0x41"));
	v.push_back(it(vu(U8, 255), "%hhu", "%hhu", "255"));
	v.push_back(it(vi(I16, -32768), "%hd", "%hd", "-32768"));
	v.push_back(it(vi(I16, 258), "%hi", "%hi", "0402"));
	v.push_back(it(vu(U16, 0xfedc), "%hu", "%hu", "0xfedc"));
	v.push_back(it(vi(I32, INT32_MIN), "%d", "%d", "-2147483648"));
	v.push_back(it(vi(I32, -64), "%i", "%i", "-64"));
	v.push_back(it(vi(I32, 64), "%d", "%d", "64"));
	v.push_back(it(vu(U32, 0xffffffffu), "%u", "%u", "4294967295"));
	v.push_back(it(vu(U32, 127), "%u", "%u", "127"));
	v.push_back(it(vi(I64, INT64_MIN), "%lld", "%lld", "-9223372036854775808"));
	v.push_back(it(vi(I64, 0x7fffffffffffffffll), "%ld", "%ld", "9223372036854775807"));
	v.push_back(it(vi(I64, -8193), "%lli", "%li", "-8193"));
	v.push_back(it(vu(U64, ~0ull), "%llu", "%llu", "18446744073709551615"));
	v.push_back(it(vu(U64, 0x80), "%lu", "%lu", "128"));
	v.push_back(it(vs(""), "%s", "%ms", ""));
	v.push_back(it(vs("%POMP\xc3\xa9"), "%s", "%ms", "%POMP\xc3\xa9"));
	v.push_back(it(vs(std::string(127, 'x')), "%s", "%ms", std::string(127, 'x')));
	v.push_back(it2(vb(std::string("\x00\xff\x0d", 3)), "%p%u", "%p%u", "00Ff0d", "3"));
	v.push_back(it2(vb(std::string("\x0a\xbc", 2)), "%p%u", "%p%u", "abc", "2"));
	v.push_back(it2(vb(""), "%p%u", "%p%u", "", "0"));
	v.push_back(it(vf(-1.5f), "%f", "%f", "-1.5"));
	v.push_back(it(vf(INFINITY), "%G", "%e", "inf"));
	v.push_back(it(vf(3.40282347e38f), "%g", "%F", "3.40282347e38"));
	v.push_back(it(vd(2.2250738585072014e-308), "%lf", "%lf", "2.2250738585072014e-308"));
	v.push_back(it(vd(-0.0), "%le", "%lE", "-0.0"));
	v.push_back(it(vd(0.1), "%lG", "%lg", "0.1"));
	return v;
}

/* memory of exactly n bytes: reads beyond it are detected */
struct Exact {
	char *p; size_t n;
	Exact(const Bytes &b, bool z = false) { n = b.size() + (z ? 1 : 0); p = (char *)malloc(n ? n : 1); memcpy(p, b.data(), b.size()); if (z) p[b.size()] = 0; if (!n) { free(p); p = (char *)malloc(1); } }
	Exact(const Exact &) = delete; Exact(Exact &&o) { p = o.p; n = o.n; o.p = nullptr; }
	~Exact() { free(p); }
};

inline Bytes buf_bytes(struct pomp_buffer *b)
{
	const void *d = nullptr; size_t len = 0, cap = 0;
	if (!b) return "<none>";
	int r = pomp_buffer_get_cdata(b, &d, &len, &cap);
	MC_CHECK(r == 0, "pomp_buffer_get_cdata failed: %d", r);
	MC_CHECK(len <= cap, "buffer length %zu above its capacity %zu", len, cap);
	return Bytes((const char *)d, len);
}
inline Bytes msg_bytes(const struct pomp_msg *m) { return buf_bytes(pomp_msg_get_buffer(m)); }

inline struct pomp_msg *msg_of(const Bytes &b)
{
	struct pomp_buffer *buf = pomp_buffer_new_with_data(b.data(), b.size());
	if (!buf) return nullptr;
	struct pomp_msg *m = pomp_msg_new_with_buffer(buf);
	pomp_buffer_unref(buf);
	return m;
}

inline int write_typed(struct pomp_encoder *e, const Val &v)
{
	switch (v.t) {
	case ref::I8: return pomp_encoder_write_i8(e, (int8_t)v.i);
	case ref::U8: return pomp_encoder_write_u8(e, (uint8_t)v.u);
	case ref::I16: return pomp_encoder_write_i16(e, (int16_t)v.i);
	case ref::U16: return pomp_encoder_write_u16(e, (uint16_t)v.u);
	case ref::I32: return pomp_encoder_write_i32(e, (int32_t)v.i);
	case ref::U32: return pomp_encoder_write_u32(e, (uint32_t)v.u);
	case ref::I64: return pomp_encoder_write_i64(e, v.i);
	case ref::U64: return pomp_encoder_write_u64(e, v.u);
	case ref::STR: { Exact x(v.s, true); return pomp_encoder_write_str(e, x.p); }
	case ref::BUF: { Exact x(v.s); return pomp_encoder_write_buf(e, x.p, (uint32_t)v.s.size()); }
	case ref::F32: return pomp_encoder_write_f32(e, v.f);
	case ref::F64: return pomp_encoder_write_f64(e, v.d);
	default: return -1;
	}
}
/* slots of one value in a variable argument list */
inline void push_arg(std::vector<uint64_t> &gp, std::vector<double> &fp, ref::Args &a, const Val &v, std::vector<Exact> &keep)
{
	auto g = [&](uint64_t x) { gp.push_back(x); a.u(x); };
	/* the unused upper half of a slot is not defined: fill it with garbage */
	auto g32 = [&](uint32_t x) { g(0xa5a5a5a500000000ull | x); };
	switch (v.t) {
	case ref::I8: case ref::I16: case ref::I32: case ref::FD: g32((uint32_t)v.i); break;
	case ref::U8: case ref::U16: case ref::U32: g32((uint32_t)v.u); break;
	case ref::I64: g((uint64_t)v.i); break;
	case ref::U64: g(v.u); break;
	case ref::STR: keep.emplace_back(v.s, true); g((uint64_t)(uintptr_t)keep.back().p); break;
	case ref::BUF: keep.emplace_back(v.s); g((uint64_t)(uintptr_t)keep.back().p); g32((uint32_t)v.s.size()); break;
	case ref::F32: fp.push_back(v.f); a.d(v.f); break;
	case ref::F64: fp.push_back(v.d); a.d(v.d); break;
	}
}
/* reference: the messages contained in a stream */
inline std::vector<Bytes> deframe(const Bytes &s, size_t maxsize = 64u << 20)
{
	std::vector<Bytes> o; size_t p = 0;
	for (;;) {
		p = s.find("POMP", p);
		if (p == Bytes::npos || s.size() - p < 12) return o;
		uint32_t sz; memcpy(&sz, s.data() + p + 8, 4);
		if (sz < 12 || sz > maxsize) { p += 12; continue; }
		if (s.size() - p < sz) return o;
		o.push_back(s.substr(p, sz)); p += sz;
	}
}
} /* namespace wire */
#endif

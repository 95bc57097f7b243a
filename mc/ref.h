/* Independent reference of the wire format, written from protocol.txt. */
#ifndef MC_REF_H
#define MC_REF_H
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <math.h>
#include <inttypes.h>
#include <string>
#include <vector>

namespace ref {
typedef std::string Bytes;
enum Type { I8 = 1, U8, I16, U16, I32, U32, I64, U64, STR, BUF, F32, F64, FD };

struct Val {
	Type t; int64_t i = 0; uint64_t u = 0; Bytes s; double d = 0; float f = 0;
	bool operator==(const Val &o) const {
		if (t != o.t) return false;
		switch (t) {
		case I8: case I16: case I32: case I64: case FD: return i == o.i;
		case U8: case U16: case U32: case U64: return u == o.u;
		case STR: case BUF: return s == o.s;
		case F32: return !memcmp(&f, &o.f, 4);
		case F64: return !memcmp(&d, &o.d, 8);
		}
		return false;
	}
};
inline Val vi(Type t, int64_t i) { Val v; v.t = t; v.i = i; return v; }
inline Val vu(Type t, uint64_t u) { Val v; v.t = t; v.u = u; return v; }
inline Val vs(const Bytes &s) { Val v; v.t = STR; v.s = s; return v; }
inline Val vb(const Bytes &s) { Val v; v.t = BUF; v.s = s; return v; }
inline Val vf(float f) { Val v; v.t = F32; v.f = f; return v; }
inline Val vd(double d) { Val v; v.t = F64; v.d = d; return v; }

inline void put_varint(Bytes &o, uint64_t v) { do { uint8_t b = v & 0x7f; v >>= 7; if (v) b |= 0x80; o += (char)b; } while (v); }
inline void put_le(Bytes &o, uint64_t v, int n) { for (int k = 0; k < n; k++) o += (char)((v >> (8 * k)) & 0xff); }
/* shifted left by one, complemented when the value is negative */
inline uint64_t zz(int64_t i) { uint64_t s = (uint64_t)i << 1; return i < 0 ? ~s : s; }

inline void put(Bytes &o, const Val &v)
{
	o += (char)v.t;
	switch (v.t) {
	case I8: put_le(o, (uint64_t)v.i, 1); break;
	case U8: put_le(o, v.u, 1); break;
	case I16: put_le(o, (uint64_t)v.i, 2); break;
	case U16: put_le(o, v.u, 2); break;
	case I32: put_varint(o, (uint32_t)zz(v.i)); break;
	case U32: put_varint(o, (uint32_t)v.u); break;
	case I64: put_varint(o, zz(v.i)); break;
	case U64: put_varint(o, v.u); break;
	case STR: put_varint(o, v.s.size() + 1); o += v.s; o += '\0'; break;
	case BUF: put_varint(o, v.s.size()); o += v.s; break;
	case F32: { uint32_t x; memcpy(&x, &v.f, 4); put_le(o, x, 4); break; }
	case F64: { uint64_t x; memcpy(&x, &v.d, 8); put_le(o, x, 8); break; }
	case FD: put_le(o, (uint64_t)v.i, 4); break;
	}
}
inline Bytes header(uint32_t id, uint32_t size) { Bytes o = "POMP"; put_le(o, id, 4); put_le(o, size, 4); return o; }
inline Bytes message(uint32_t id, const std::vector<Val> &v)
{
	Bytes p; for (auto &x : v) put(p, x);
	return header(id, (uint32_t)(12 + p.size())) + p;
}
inline Bytes raw_message(uint32_t id, const Bytes &p) { return header(id, (uint32_t)(12 + p.size())) + p; }

/* parses one argument at pos; returns 0 and advances, or -1 */
inline bool get_varint(const Bytes &b, size_t &pos, uint64_t *v)
{
	*v = 0;
	for (int k = 0;; k++) {
		if (pos >= b.size()) return false;
		uint8_t c = (uint8_t)b[pos++];
		uint64_t g = c & 0x7f;
		if (k >= 10 || (k == 9 && g > 1)) return false;
		*v |= g << (7 * k);
		if (!(c & 0x80)) return true;
	}
}
inline bool get(const Bytes &b, size_t &pos, Val *v, bool fds_ok = false)
{
	size_t p = pos;
	if (p >= b.size()) return false;
	v->t = (Type)(uint8_t)b[p++];
	auto le = [&](int n, uint64_t *x) { if (b.size() - p < (size_t)n) return false; *x = 0; for (int k = 0; k < n; k++) *x |= (uint64_t)(uint8_t)b[p + k] << (8 * k); p += n; return true; };
	uint64_t x;
	switch (v->t) {
	case I8: if (!le(1, &x)) return false; v->i = (int8_t)x; break;
	case U8: if (!le(1, &x)) return false; v->u = x; break;
	case I16: if (!le(2, &x)) return false; v->i = (int16_t)x; break;
	case U16: if (!le(2, &x)) return false; v->u = x; break;
	case I32: if (!get_varint(b, p, &x) || x > 0xffffffffull) return false; v->i = (int32_t)(uint32_t)((x >> 1) ^ (x & 1 ? 0xffffffffull : 0)); break;
	case U32: if (!get_varint(b, p, &x) || x > 0xffffffffull) return false; v->u = x; break;
	case I64: if (!get_varint(b, p, &x)) return false; v->i = (int64_t)((x >> 1) ^ (x & 1 ? ~0ull : 0)); break;
	case U64: if (!get_varint(b, p, &x)) return false; v->u = x; break;
	case STR: if (!get_varint(b, p, &x) || x == 0 || x > 0xffff || x > b.size() - p || b[p + x - 1] != 0) return false; v->s = b.substr(p, x - 1); p += x; break;
	case BUF: if (!get_varint(b, p, &x) || x > 0xffffffffull || x > b.size() - p) return false; v->s = b.substr(p, x); p += x; break;
	case F32: { if (!le(4, &x)) return false; uint32_t y = (uint32_t)x; memcpy(&v->f, &y, 4); break; }
	case F64: if (!le(8, &x)) return false; memcpy(&v->d, &x, 8); break;
	case FD: if (!le(4, &x)) return false; v->i = (int32_t)x; if (!fds_ok) return false; break;
	default: return false;
	}
	pos = p;
	return true;
}

inline Bytes dump1(const Val &v)
{
	char b[64]; Bytes o = ", ";
	switch (v.t) {
	case I8: snprintf(b, 64, "I8:%" PRIi64, v.i); return o + b;
	case U8: snprintf(b, 64, "U8:%" PRIu64, v.u); return o + b;
	case I16: snprintf(b, 64, "I16:%" PRIi64, v.i); return o + b;
	case U16: snprintf(b, 64, "U16:%" PRIu64, v.u); return o + b;
	case I32: snprintf(b, 64, "I32:%" PRIi64, v.i); return o + b;
	case U32: snprintf(b, 64, "U32:%" PRIu64, v.u); return o + b;
	case I64: snprintf(b, 64, "I64:%" PRIi64, v.i); return o + b;
	case U64: snprintf(b, 64, "U64:%" PRIu64, v.u); return o + b;
	case STR: return o + "STR:'" + v.s.c_str() + "'";
	case BUF: return o + "BUF:";
	case F32: snprintf(b, 64, "F32:%.7g", v.f); return o + b;
	case F64: snprintf(b, 64, "F64:%.7g", v.d); return o + b;
	case FD: snprintf(b, 64, "FD:%" PRIi64, v.i); return o + b;
	}
	return o;
}
inline Bytes dump_head(uint32_t id) { char b[32]; snprintf(b, 32, "{ID:%u", id); return b; }
inline Bytes dump(uint32_t id, const std::vector<Val> &vs) { Bytes o = dump_head(id); for (auto &v : vs) o += dump1(v); return o + "}"; }

/* a va_list made of given slots (System V x86-64: everything in the overflow area) */
struct Args {
	std::vector<uint64_t> slot;
	void u(uint64_t v) { slot.push_back(v); }
	void p(const void *v) { slot.push_back((uint64_t)(uintptr_t)v); }
	void d(double v) { uint64_t x; memcpy(&x, &v, 8); slot.push_back(x); }
	struct Raw { unsigned gp, fp; void *overflow, *save; };
	void fill(va_list *ap) { Raw *r = (Raw *)*ap; r->gp = 48; r->fp = 304; slot.push_back(0xdeadbeefdeadbeefull); slot.pop_back(); r->overflow = slot.data(); r->save = nullptr; }
};

inline const char *hexs(const Bytes &b) { static std::string s[4]; static int k; std::string &o = s[k++ & 3]; o.clear(); char t[4]; for (unsigned char c : b) { if (o.size() > 400) { o += "..."; break; } snprintf(t, 4, "%02x", c); o += t; } return o.c_str(); }
} /* namespace ref */
#endif

/* C24: all pairs of argument types with boundary values */
#include "cppif.h"
namespace {
template<class T> void check_value(const char *how, const T &got, const T &want, const Bytes &m) { MC_CHECK(same(got, want), "%s gives another value than the one in %s", how, ref::hexs(m)); }

/* the result the C functions give for reading a value of this type next */
template<ArgType T> int c_read(struct pomp_decoder *d)
{
	typename A<T>::type v; (void)v;
	int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double lf; const char *s; const void *p; uint32_t n;
	switch (T) {
	case ArgI8: return pomp_decoder_read_i8(d, &i8); case ArgU8: return pomp_decoder_read_u8(d, &u8);
	case ArgI16: return pomp_decoder_read_i16(d, &i16); case ArgU16: return pomp_decoder_read_u16(d, &u16);
	case ArgI32: return pomp_decoder_read_i32(d, &i32); case ArgU32: return pomp_decoder_read_u32(d, &u32);
	case ArgI64: return pomp_decoder_read_i64(d, &i64); case ArgU64: return pomp_decoder_read_u64(d, &u64);
	case ArgF32: return pomp_decoder_read_f32(d, &f); case ArgF64: return pomp_decoder_read_f64(d, &lf);
	case ArgStr: return pomp_decoder_read_cstr(d, &s); case ArgBuf: return pomp_decoder_read_cbuf(d, &p, &n);
	default: return -1;
	}
}
template<ArgType... T> struct CRead { static int run(struct pomp_decoder *) { return 0; } };
template<ArgType T, ArgType... R> struct CRead<T, R...> { static int run(struct pomp_decoder *d) { int r = c_read<T>(d); return r ? r : CRead<R...>::run(d); } };
template<ArgType... T> int c_reads(const Bytes &m)
{
	struct pomp_msg *pm = libmsg(m); struct pomp_decoder *d = pomp_decoder_new(); pomp_decoder_init(d, pm);
	int r = CRead<T...>::run(d);
	pomp_decoder_destroy(d); pomp_msg_destroy(pm);
	return r;
}

template<ArgType T1, ArgType T2> void pair_case()
{
	typedef MessageFormat<42, T1, T2> F; typedef MessageFormat<43, T1, T2> Wrong; typedef MessageFormat<42, T2, T1> Swapped; typedef MessageFormat<42, T1> Short; typedef MessageFormat<42, T1, T2, T1> Long;
	typedef typename A<T1>::type V1; typedef typename A<T2>::type V2;
	auto l1 = A<T1>::vals(); auto l2 = A<T2>::vals();
	for (const V1 &v1 : l1) for (const V2 &v2 : l2) {
		Bytes want = ref::message(42, {A<T1>::val(v1), A<T2>::val(v2)});
		Message m;
		int r = m.write<F>(v1, v2);
		MC_CHECK(r == 0, "writing %s returned %d", ref::hexs(want), r);
		MC_CHECK(m.getId() == 42, "the id is %u", m.getId());
		Bytes b = P->bytes(m);
		MC_CHECK(b == want, "a typed format writes %s instead of %s", ref::hexs(b), ref::hexs(want));
		auto reads = [&](const Message &x) {
			V1 o1 = other(v1); V2 o2 = other(v2);
			MC_CHECK(x.getId() == 42, "the id is %u", x.getId());
			int r = x.read<F>(o1, o2);
			MC_CHECK(r == 0, "reading %s returned %d", ref::hexs(want), r);
			check_value("a typed format", o1, v1, want); check_value("a typed format", o2, v2, want);
			V1 d1 = other(v1); V2 d2 = other(v2); V1 d3 = other(v1);
			Decoder d(x);
			MC_CHECK((r = d.read(d1)) == 0 && (r = d.read(d2)) == 0, "decoding %s returned %d", ref::hexs(want), r);
			check_value("a decoder", d1, v1, want); check_value("a decoder", d2, v2, want);
			r = d.read(d3); int c = c_reads<T1, T2, T1>(want);
			MC_CHECK(r == c && r < 0, "reading beyond the end returned %d instead of %d", r, c);
			/* formats that do not fit */
			V1 w1 = other(v1); V2 w2 = other(v2);
			r = x.read<Wrong>(w1, w2); MC_CHECK(r == -EINVAL, "reading with another id returned %d", r);
			check_value("a refused read", w1, other(v1), want); check_value("a refused read", w2, other(v2), want);
			r = x.read<Swapped>(w2, w1); c = c_reads<T2, T1>(want); MC_CHECK(r == c, "reading with other types returned %d instead of %d", r, c);
			V1 s1 = other(v1); r = x.read<Short>(s1); MC_CHECK(r == c_reads<T1>(want), "reading only one returned %d", r); check_value("a typed format", s1, v1, want);
			V1 x1 = other(v1), x3 = other(v1); V2 x2 = other(v2); r = x.read<Long>(x1, x2, x3); c = c_reads<T1, T2, T1>(want); MC_CHECK(r == c, "reading one more returned %d instead of %d", r, c);
		};
		reads(m);
		P->give(want, reads);
		/* written again into the same message, then by an encoder */
		r = m.write<Short>(v1); MC_CHECK(r == 0, "writing again returned %d", r);
		b = P->bytes(m); Bytes want1 = ref::message(42, {A<T1>::val(v1)});
		MC_CHECK(b == want1, "a message written again is %s instead of %s", ref::hexs(b), ref::hexs(want1));
		Encoder e(42);
		MC_CHECK((r = e.write(v1)) == 0 && (r = e.write(v2)) == 0, "encoding returned %d", r);
		b = P->bytes(e.getMessage());
		MC_CHECK(b == want, "an encoder writes %s instead of %s", ref::hexs(b), ref::hexs(want));
		b = P->bytes(e.getMessage());
		MC_CHECK(b == want, "the second time an encoder gives %s instead of %s", ref::hexs(b), ref::hexs(want));
		reads(e.getMessage());
		count(1);
	}
	heartbeat();
}
template<ArgType T1> void row()
{
	pair_case<T1, ArgI8>(); pair_case<T1, ArgU8>(); pair_case<T1, ArgI16>(); pair_case<T1, ArgU16>(); pair_case<T1, ArgI32>(); pair_case<T1, ArgU32>();
	pair_case<T1, ArgI64>(); pair_case<T1, ArgU64>(); pair_case<T1, ArgStr>(); pair_case<T1, ArgBuf>(); pair_case<T1, ArgF32>(); pair_case<T1, ArgF64>();
}
} // namespace

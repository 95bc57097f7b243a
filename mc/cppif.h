/* C24: shared by the parts of the harness of the C++ interface */
#ifndef MC_CPPIF_H
#define MC_CPPIF_H
#include "session.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include <functional>
#include <tuple>
#include <limits>
extern "C" void sim_free(void *p);
namespace std { using ::sim_free; }
/* memory that comes from the library belongs to its (simulated) heap */
#define free sim_free
#include "libpomp.hpp"
#undef free
#include <sanitizer/asan_interface.h>
using namespace mc; using namespace ses; using simk::cfg;
using namespace pomp;

namespace {
/* ------------------------------------------------------------------ */
/* values                                                              */
/* ------------------------------------------------------------------ */
template<ArgType T> struct A;
#define INT_ARG(T, C, RT, FIELD, W, ...) template<> struct A<T> { typedef C type; \
	static std::vector<C> vals() { return __VA_ARGS__; } \
	static ref::Val val(const C &v) { ref::Val r; r.t = ref::RT; r.FIELD = v; return r; } \
	static std::string wfmt() { return "%" W; } static std::string rfmt() { return "%" W; } };
INT_ARG(ArgI8, int8_t, I8, i, "hhd", {0, -128, 127})
INT_ARG(ArgU8, uint8_t, U8, u, "hhu", {0, 255, 128})
INT_ARG(ArgI16, int16_t, I16, i, "hd", {-32768, 32767, 258})
INT_ARG(ArgU16, uint16_t, U16, u, "hu", {65535, 0x0201, 0})
INT_ARG(ArgI32, int32_t, I32, i, "d", {INT32_MIN, INT32_MAX, -64, 64})
INT_ARG(ArgU32, uint32_t, U32, u, "u", {0xffffffffu, 127, 128, 0})
INT_ARG(ArgI64, int64_t, I64, i, "lld", {INT64_MIN, INT64_MAX, -1})
INT_ARG(ArgU64, uint64_t, U64, u, "llu", {~0ull, 1ull << 63, 0})
INT_ARG(ArgF32, float, F32, f, "f", {-1.5f, 3.40282347e38f, std::numeric_limits<float>::infinity()})
INT_ARG(ArgF64, double, F64, d, "lf", {0.1, -0.0, 2.2250738585072014e-308})
template<> struct A<ArgStr> { typedef std::string type; static std::vector<std::string> vals() { return {"", "h\xc3\xa9 %u", std::string(200, 'y')}; }
	static ref::Val val(const std::string &v) { return ref::vs(v); } static std::string wfmt() { return "%s"; } static std::string rfmt() { return "%ms"; } };
template<> struct A<ArgBuf> { typedef std::vector<uint8_t> type; static std::vector<type> vals() { return {{}, {0}, {1, 0, 255}, type(300, 7)}; }
	static ref::Val val(const type &v) { return ref::vb(Bytes(v.begin(), v.end())); } static std::string wfmt() { return "%p%u"; } static std::string rfmt() { return "%p%u"; } };

/* a value that differs from the one to be read */
template<class T> T other(const T &) { return (T)77; }
std::string other(const std::string &) { return "before"; }
std::vector<uint8_t> other(const std::vector<uint8_t> &) { return {9, 9}; }
template<class T> bool same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
bool same(const std::string &a, const std::string &b) { return a == b; }
bool same(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) { return a == b; }

/* a datagram context carries messages to and from the environment, so that
 * their bytes are seen as any user sees them */
struct Pipe : EventHandler {
	World w; std::unique_ptr<Loop> loop; std::unique_ptr<Context> ctx; Addr a, b;
	std::function<void(const Message &)> on;
	int got = 0;
	Pipe() {
		W = &w; begin(w);
		a = addr_of(AF_INET, 0); b = addr_of(AF_INET, 1);
		loop.reset(new Loop()); ctx.reset(new Context(this, loop.get()));
		cfg.horizon = 2000000;
		int r = ctx->bind(sa(a), a.size()); MC_CHECK(r == 0, "bind returned %d", r);
	}
	void recvMessage(Context *, Connection *, const Message &m) override { got++; if (on) on(m); }
	Bytes bytes(const Message &m) {
		size_t n = simk::dgrams.size();
		int r = ctx->sendMsgTo(m, sa(b), b.size());
		MC_CHECK(r == 0, "sending a message returned %d", r);
		MC_CHECK(simk::dgrams.size() == n + 1, "%zu datagrams sent instead of one", simk::dgrams.size() - n);
		Bytes d = simk::dgrams.back().data; simk::dgrams.clear();
		return d;
	}
	void give(const Bytes &m, std::function<void(const Message &)> f) {
		on = f; got = 0;
		simk::env_dgram(b, a, m.data(), m.size());
		int r = loop->waitAndProcess(0); MC_CHECK(r == 0, "waitAndProcess returned %d", r);
		MC_CHECK(got == 1, "%d messages delivered instead of one", got);
		on = nullptr;
	}
	void done() { int r = ctx->stop(); MC_CHECK(r == 0, "stop returned %d", r); ctx.reset(); loop.reset(); }
};
Pipe *P;

} // namespace
#endif

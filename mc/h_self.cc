/* The explorer on toy programs with known numbers of executions and known bugs
 * (run by tools/selftest.py). */
#include "simk.h"
#include <stdlib.h>
#include <string.h>
using namespace mc;
namespace {
int g_x;
void two_threads(int steps, bool check)
{
	simk::cfg.preempt = true;
	g_x = 0;
	auto body = [steps] { for (int i = 0; i < steps; i++) { int v = g_x; simk::yield_point("between read and write"); g_x = v + 1; } };
	int t = simk::spawn(body, "other");
	body();
	simk::join(t);
	outcome((uint64_t)g_x);
	if (check) MC_CHECK(g_x == 2 * steps, "lost update: %d", g_x);
}
Reg r([] {
	/* 3^4 executions */
	add("SELF", "free", [] { uint64_t h = 0; for (int i = 0; i < 4; i++) h = h * 3 + pick(3, "x"); outcome(h); });
	/* choices depend on earlier ones: 1 + 2 + 3 + 4 */
	add("SELF", "dependent", [] { int a = pick(4, "a"); uint64_t h = a * 10 + pick(a + 1, "b"); outcome(h); });
	/* at most 2 of 8 binary deviations: 1 + 8 + 28 */
	add("SELF", "deviations", [] { uint64_t h = 0; for (int i = 0; i < 8; i++) h = h * 2 + dev(2, "d"); outcome(h); }, 2, 2);
	/* at most 3 of 8 ternary deviations: 1 + 16 + 28*4 + 56*8 */
	add("SELF", "ternary", [] { uint64_t h = 0; for (int i = 0; i < 8; i++) h = h * 3 + dev(3, "d"); outcome(h); }, 3, 3);
	add("SELF", "ok-deep", [] { for (int i = 0; i < 10; i++) pick(3, "x"); });
	add("SELF", "bad-deep", [] { int s = 0; for (int i = 0; i < 10; i++) s = s * 3 + pick(3, "x"); MC_CHECK(s != 40000, "found"); });
	add("SELF", "bad-deviation", [] { int s = 0; for (int i = 0; i < 30; i++) s += dev(2, "x") * i; MC_CHECK(s != 29 + 28, "found"); }, 2, 2);
	add("SELF", "ok-deviation", [] { int s = 0; for (int i = 0; i < 30; i++) s += dev(2, "x") * i; MC_CHECK(s != 29 + 28, "found"); }, 1, 1);
	/* a lost update needs one preemption */
	add("SELF", "ok-preempt", [] { two_threads(2, true); }, 0, 0);
	add("SELF", "bad-preempt", [] { two_threads(2, true); }, 1, 1);
	add("SELF", "bad-deadlock", [] { if (dev(2, "block")) simk::block_until([] { return false; }, UINT64_MAX, "for ever"); }, 1, 1);
});
}

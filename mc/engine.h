/* Deviation-bounded stateless explorer.
 *
 * A scenario is a deterministic function that asks choose() for every
 * nondeterministic decision.  The engine enumerates all executions in which
 * the sum of the costs of the decisions does not exceed the bound: alternative
 * 0 always costs 0, the others cost 0 (FREE choices, the data and operations
 * that are enumerated completely) or 1 (DEV choices: deviations from the
 * default answer of the environment, preemptions, faults).
 */
#ifndef MC_ENGINE_H
#define MC_ENGINE_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace mc {

enum Kind { FREE = 0, DEV = 1 };

/* decision points */
int choose(int n, Kind kind, const char *what);
inline int pick(int n, const char *what) { return choose(n, FREE, what); }
inline int dev(int n, const char *what) { return choose(n, DEV, what); }
/* remaining deviations allowed in this execution */
int budget();
/* index among the n alternatives for big FREE choices (n up to 65536) */
int pick_big(int n, const char *what);

/* oracle failure: ends the execution as a violation */
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

/* trace line (kept only in replays and samples) */
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
/* folds an observation into the state hash of this execution */
void observe(uint64_t v);
void observe_bytes(const void *p, size_t n);
/* records the hash of the final outcome (distinct ones are counted) */
void outcome(uint64_t h);
/* counts n elementary cases evaluated inside one execution */
void count(uint64_t n);
/* counts a validated conformance trace */
void count_trace(uint64_t n);
/* ends this execution early, not an error (e.g. infeasible combination) */
[[noreturn]] void prune();
/* named counter for the evidence */
void stat(const char *name, uint64_t n);
/* progress mark, for scenarios with long inner loops */
void heartbeat();

struct Scenario {
	const char *name;
	std::function<void()> run;
	int bound_quick;
	int bound_thorough;
	bool thorough_only;
};
/* registered under a property id; one binary can hold several properties */
void add(const char *prop, const char *name, std::function<void()> fn,
		int bound_quick = 0, int bound_thorough = 0, bool thorough_only = false);
bool thorough();
struct Reg { Reg(void (*f)()) { f(); } };

/* called before and after each execution (simulated kernel reset, leak check) */
void set_hooks(void (*begin)(), void (*end)());

uint64_t hash64(const void *p, size_t n, uint64_t seed = 0x9e3779b97f4a7c15ull);

} /* namespace mc */
#endif

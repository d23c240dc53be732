/* Common frame of all checks: a check generates numbered cases and judges one
 * case at a time; a case is replayable from its text form. */
#pragma once
#include "gen.hpp"
#include <map>
#include <set>

struct Case {
	std::vector<int64_t> p;		/* parameters of the check */
	std::vector<Op> ops;
};

struct Result {
	std::string msg;		/* empty: property held */
	std::string key;		/* short stable name of what failed */
	std::string note;		/* description of the case, for samples */
	uint64_t state = 0;		/* hash of the final observed state */
	uint64_t more_states = 0;	/* states observed inside of one case (counted, not hashed) */
	uint64_t evals = 0;		/* oracle decisions taken */
	std::map<std::string, uint64_t> n;
	bool fail(const std::string &k, const std::string &m) { if (msg.empty()) { key = k; msg = m; } return false; }
};

struct CheckDef {
	const char *id;
	uint64_t quick, thorough;	/* number of cases */
	void (*gen)(uint64_t seed, uint64_t index, bool thorough, Case &c);
	void (*eval)(const Case &c, Result &r);
};

extern const CheckDef *all_checks[];	/* NULL-terminated array of tables, each terminated by id == NULL */
extern bool g_replay;			/* replaying one case: be verbose */
extern uint64_t g_steps;		/* instrumented edges executed by the library so far */
extern uint64_t g_steps_limit;		/* the process ends (status 78) when the count gets here */
extern bool g_thorough;

/* model_diff.cpp */
void diff_gen(const char *prop, uint64_t seed, uint64_t index, Case &c);
void diff_eval(const char *prop, const Case &c, Result &r);
std::string cmp_frame(const Frame &f, const std::vector<model::DCell> &d, bool cells, bool attrs);
std::string contract(const Frame &f);	/* drawing contract */
uint64_t frame_hash(const Frame &f, bool ages = false);
std::string frame_diff(const Frame &a, const Frame &b, bool ages);	/* real against real */
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
/* random operation sequences of the whole interface, generated from the model's state */
void any_ops(uint64_t seed, int n, bool vte, std::vector<Op> &out, bool big = false);

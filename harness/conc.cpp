/* C38: terminals are independent of each other, also when they are used by
 * different threads at the same time (each by one thread). */
#include "check.hpp"
#include <atomic>
#include <sched.h>
#include <thread>
using namespace model;

struct Run {
	std::vector<Op> ops;
	bool vte, log;
	uint64_t yield;
	std::vector<uint64_t> h;	/* what was observed after every operation */
	std::vector<uint32_t> ticket;
	std::string err;
};
static std::atomic<uint32_t> tickets;
struct Step {
	Run &u;
	Real R;
	size_t i = 0;
	uint64_t cells = 0;
	Step(Run &r) : u(r), R(r.vte, r.log) { u.h.clear(); u.ticket.clear(); }
	bool more() const { return i < u.ops.size(); }
	void one()
	{
		const Op &o = u.ops[i++];
		R.apply(o);
		u.ticket.push_back(tickets.fetch_add(1, std::memory_order_relaxed));
		uint64_t h = tsm_screen_get_cursor_x(R.s) * 31 + tsm_screen_get_cursor_y(R.s) + tsm_screen_get_flags(R.s) * 977;
		h = hash_str(R.out, h); R.out.clear();
		for (auto &s : R.osc) h = hash_str(s, h);
		R.osc.clear();
		for (auto &m : R.mouse) h = mix(h, m.event * 2 + m.pixel);
		R.mouse.clear();
		h = hash_str(R.last_sel, h + R.last_ret);
		if (R.v) h = mix(h, tsm_vte_get_flags(R.v));
		if (++cells > 1 + tsm_screen_get_width(R.s) * tsm_screen_get_height(R.s) / 100 || !more()) { cells = 0; h = mix(h, frame_hash(R.draw())); }
		u.h.push_back(h);
		if (!R.err.empty()) u.err = R.err;
	}
};
static void gen38(uint64_t seed, uint64_t i, bool, Case &c) { c.p = { (int64_t)(mix(mix(seed, hash_str("C38")), i) >> 1) }; }
static void eval38(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	size_t n = q.range(2, 6);
	std::vector<Run> T(n);
	for (auto &t : T) {
		t.vte = q.p(0.85); t.log = q.p(0.5); t.yield = q.next();
		any_ops(q.next(), q.range(20, 80), t.vte, t.ops);
		if (t.ops.size() > 120) t.ops.resize(120);
		if (&t != &T[0] && q.p(0.25)) { t.ops = T[0].ops; t.vte = T[0].vte; }
	}
	/* alone */
	std::vector<std::vector<uint64_t>> want;
	for (auto &t : T) { Step s(t); while (s.more()) s.one(); want.push_back(t.h); r.n["operations"] += t.ops.size(); if (!t.err.empty()) { r.fail("callback", t.err); return; } }
	auto judge = [&](const char *how) {
		for (size_t k = 0; k < n; k++) {
			if (!T[k].err.empty()) { r.fail("callback", T[k].err); return false; }
			for (size_t i = 0; i < want[k].size(); i++) {
				r.evals++;
				if (T[k].h[i] != want[k][i]) { r.fail("isolation", fmt("terminal %zu of %zu behaves differently %s: operation %zu: ", k, n, how, i + 1) + op_str(T[k].ops[i])); return false; }
			}
		}
		return true;
	};
	/* interleaved in one thread */
	{
		std::vector<Step *> S;
		for (auto &t : T) S.push_back(new Step(t));
		for (;;) {
			std::vector<Step *> live;
			for (auto s : S) if (s->more()) live.push_back(s);
			if (live.empty()) break;
			Step *s = q.pick(live);
			for (int k = q.range(1, 5); k-- && s->more(); ) s->one();
		}
		for (auto s : S) delete s;
		if (!judge("when others are used in between")) return;
	}
	/* in parallel */
	tickets = 0;
	std::vector<std::thread> th;
	for (auto &t : T) th.emplace_back([&t] {
		Rng y(t.yield);
		Step s(t);
		while (s.more()) { s.one(); if (y.p(0.1)) sched_yield(); }
	});
	for (auto &t : th) t.join();
	if (!judge("when others are used by other threads")) return;
	std::map<uint32_t, size_t> order;
	for (size_t k = 0; k < n; k++) for (auto t : T[k].ticket) order[t] = k;
	size_t last = n;
	for (auto &o : order) { r.state = mix(r.state, o.second); if (o.second != last) r.n["thread_switches_observed"]++; last = o.second; }
	r.n["threads"] += n;
	r.note = fmt("%zu terminals, %zu operations alone, interleaved and in parallel", n, order.size());
}
extern const CheckDef conc_checks[];
const CheckDef conc_checks[] = {
	{ "C38", 500, 16000, gen38, eval38 },
	{ nullptr, 0, 0, nullptr, nullptr }
};

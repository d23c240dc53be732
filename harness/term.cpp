/* Checks on the terminal that need no reference model: memory safety, failure
 * injection, ownership, metamorphic relations, ageing, bounded work. */
#include "check.hpp"
#include <cerrno>
#include <climits>
#include <functional>
#include <pthread.h>
using namespace model;
typedef std::vector<int64_t> VI;

static uint64_t cseed(const char *id, uint64_t seed, uint64_t i) { return mix(mix(seed, hash_str(id)), i); }
static const int64_t hostile[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000ll, 0x80000001ll, 0xfffffffell, 0xffffffffll };
static bool numeric(int k) { return k == O_MARGINS || k == O_MAXSB || (k >= O_SBUP && k <= O_SBPGDN) || (k >= O_SCRUP && k <= O_RIGHT) || (k >= O_TABR && k <= O_DELC) || k == O_ERCH || k == O_SELST || k == O_SELTGT || k == O_KEY || k == O_MOUSE || k == O_SETF || k == O_CLRF || k == O_WRITE; }

/* random operations with hostile arguments and broken byte sequences; the model follows along */
static void hostile_ops(uint64_t seed, int n, bool vte, std::vector<Op> &out, double p_bad)
{
	Gen g(seed);
	g.vte = vte;
	Mod M(vte);
	g.s = &M.s;
	for (Op &o : no_callbacks(g)) { M.apply(o); out.push_back(o); }
	setup_any(g);
	auto &r = g.r;
	while (!g.pend.empty() || n-- > 0) {
		Op o = g.pend.empty() ? gen_any(g) : g.pop();
		if (!vte && r.p(0.1)) o = Op(r.pick(std::vector<int>{ O_MOVETO, O_UP, O_DOWN, O_LEFT, O_RIGHT, O_INSL, O_DELL, O_INSC, O_DELC, O_ERCH, O_SCRUP, O_SCRDN, O_SBUP, O_SBDOWN, O_SBPGUP, O_SBPGDN, O_MARGINS, O_SELST, O_SELTGT, O_TABR, O_TABL }), { r.range(0, 100), r.range(0, 100) });
		if (r.p(p_bad)) {
			if (numeric(o.k) && !o.a.empty()) {
				size_t i = r.below(o.a.size());
				int64_t h = hostile[r.below(sizeof hostile / sizeof *hostile)];
				if (r.p(0.3)) h = (int64_t(r.p(0.5) ? M.s.w : M.s.h) + r.range(-2, 2)) & 0xffffffff;
				if (o.k == O_SETF || o.k == O_CLRF) h &= 0x7f;
				if (o.k == O_MAXSB) h = r.range(0, 3000);
				if (o.k == O_WRITE) { i = 0; if (h > 0x10ffff) h = 0x10ffff; }
				o.a[i] = h;
			} else if (o.k == O_IN && !o.s.empty()) {
				switch (r.below(6)) {
				case 0: o.s[r.below(o.s.size())] = char(r.below(256)); break;
				case 1: o.s.erase(r.below(o.s.size()), r.range(1, 3)); break;
				case 2: o.s.insert(r.below(o.s.size() + 1), 1, char(r.below(256))); break;
				case 3: o.s.resize(r.below(o.s.size() + 1)); break;
				case 4: { std::string t = any_bytes(g); o.s.insert(r.below(o.s.size() + 1), t); break; }
				default: { /* a number gets huge */
					size_t p = o.s.find_first_of("0123456789");
					if (p != std::string::npos) o.s.insert(p, r.pick(std::vector<std::string>{ "9", "99999", "4294967295", "2147483648", "6553" }));
				} }
			}
		}
		M.apply(o);
		out.push_back(o);
		if (out.size() > 3000) break;
	}
}
static void count_ops(const Case &c, Result &r)
{
	for (auto &o : c.ops) { r.n[std::string("op_") + op_name(o.k)]++; if (o.k == O_IN) r.n["bytes_in"] += o.s.size(); }
	r.n["operations"] += c.ops.size();
}

/* ---- C01: memory safety and undefined behaviour (the sanitizers are the oracle) ---- */
static void gen01(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C01", seed, i));
	if (i % 1000 == 3) {	/* a very tall screen in a thread with a small stack */
		int64_t h = r.range(70000, 90000);
		auto some = [&](int64_t n) { return Op(r.pick(std::vector<int>{ O_INSL, O_DELL, O_SCRUP, O_SCRDN, O_SCRUP }), { r.p(0.3) ? n : r.range(n / 2, n) }); };
		c.p = { 0, 1 };
		c.ops.push_back(Op(O_MAXSB, { r.range(0, 100) }));
		c.ops.push_back(Op(O_RESIZE, { r.range(1, 2), h }));
		for (int k = 0; k < 3; k++) {
			if (r.p(0.4)) c.ops.push_back(Op(O_MOVETO, { 0, r.range(0, 3) }));
			c.ops.push_back(some(h));
		}
		c.ops.push_back(Op(O_SELST, { 0, 0 }));
		c.ops.push_back(Op(O_SELTGT, { 0, h - 1 }));
		c.ops.push_back(Op(O_RESIZE, { 3, r.p(0.5) ? 1 : h / 2 }));
		return;
	}
	bool vte = r.p(0.75);
	c.p = { vte };
	hostile_ops(r.next(), r.range(10, 90), vte, c.ops, 0.25);
	if (vte && i % 7 == 0) {		/* plain noise */
		for (int k = 0; k < 5; k++) { std::string t; for (int n = r.range(1, 200); n--; ) t += char(r.below(256)); c.ops.push_back(IN(t)); }
	}
}
/* what the process needs for itself is little, but grows with AddressSanitizer */
static void on_small_stack(const std::function<void()> &f)
{
	pthread_t t;
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 384 << 10);
	if (pthread_create(&t, &a, [](void *p) -> void * { (*(const std::function<void()> *)p)(); return nullptr; }, (void *)&f)) abort();
	pthread_join(t, nullptr);
	pthread_attr_destroy(&a);
}
static void eval01(const Case &c, Result &r)
{
	if (c.p.size() > 1 && c.p[1]) {
		on_small_stack([&] {
			Real R(false, true);
			for (auto &o : c.ops) { R.apply(o); r.evals++; }
			r.state = frame_hash(R.draw());
			r.n["tall_screens"]++;
			count_ops(c, r);
		});
		return;
	}
	Real R(c.p[0], true);
	uint64_t cells = 0;
	for (auto &o : c.ops) {
		R.apply(o);
		if (!R.err.empty()) { r.fail("callback", R.err); return; }
		if (R.s && (cells += tsm_screen_get_width(R.s) * tsm_screen_get_height(R.s)) > 3000) { cells = 0; R.draw(); }
		r.evals++;
	}
	R.apply(Op(O_SELCOPY));
	r.state = frame_hash(R.draw());
	count_ops(c, r);
	r.n["log_messages"] += R.logs;
}

/* ---- C02: allocation failure ---- */
static void gen02(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C02", seed, i));
	bool vte = r.p(0.7);
	c.p = { vte, (int64_t)(r.next() >> 1), i % 32 == 0 };
	Gen g(r.next());
	g.vte = vte;
	Mod M(vte);
	g.s = &M.s;
	g.pend.push_back(g.init_size());
	g.pend.push_back(Op(O_MAXSB, { r.pick(VI{ 0, 1, 3, 20 }) }));
	int n = r.range(10, 40);
	while (!g.pend.empty() || n-- > 0) {
		Op o;
		if (!g.pend.empty()) o = g.pop();
		else switch (r.w({ 8, 8, 5, 2, 3, 3 })) {
		case 0: o = g.resize(); break;
		case 1: o = r.p(0.5) ? g.newline() : g.SU(); break;
		case 2: g.pend.push_back(Op(O_SELTGT, { r.range(0, M.s.w - 1), r.range(0, M.s.h - 1) })); g.pend.push_back(Op(O_SELCOPY)); o = Op(O_SELST, { r.range(0, M.s.w - 1), r.range(0, M.s.h - 1) }); break;
		case 3: if (vte) { o = Op(r.p(0.5) ? O_CPAL : O_PAL); if (o.k == O_PAL) o.s = r.pick(std::vector<std::string>{ "vga", "custom", "solarized" }); else for (int k = 0; k < 54; k++) o.s += char(r.below(256)); } break;
		case 4: o = g.print(r.range(1, 30)); break;
		default: o = gen_any(g); if (o.k == O_SELST || o.k == O_SELTGT || o.k == O_SBUP || o.k == O_SBPGUP) o = Op(O_SBRESET); break;
		}
		M.apply(o);
		c.ops.push_back(o);
		if (c.ops.size() > 400) break;
	}
}
static bool creation_under_failure(Result &r)
{
	for (int all = 0; all < 2; all++)
		for (int k = 0; k < 400; k++) {
			g_mon.start(); g_mon.fail_in = k; g_mon.fail_all = all;
			struct tsm_screen *s = nullptr;
			int ret = tsm_screen_new(&s, nullptr, nullptr);
			bool fired = g_mon.fired; g_mon.fail_in = -1;
			r.evals++; r.n["failures_injected"] += fired;
			if (fired && ret != -ENOMEM) return r.fail("new", fmt("tsm_screen_new returned %d although allocation %d failed", ret, k));
			if (fired && s) return r.fail("new", "a failed tsm_screen_new stored an object");
			if (!fired) {
				if (ret || !s) return r.fail("new", fmt("tsm_screen_new returned %d without any failure", ret));
				tsm_screen_unref(s);
			}
			if (g_mon.live) return r.fail("leak", fmt("%zu blocks left after tsm_screen_new with allocation %d failing", g_mon.live, k));
			if (!fired) break;
		}
	for (int k = 0; k < 20; k++) {
		Real R(false);
		g_mon.start(); g_mon.fail_in = k;
		struct tsm_vte *v = nullptr;
		int ret = tsm_vte_new(&v, R.s, Real::write_cb, &R, nullptr, nullptr);
		bool fired = g_mon.fired; g_mon.fail_in = -1;
		r.evals++; r.n["failures_injected"] += fired;
		if (fired && (ret != -ENOMEM || v)) return r.fail("new", fmt("tsm_vte_new returned %d although allocation %d failed", ret, k));
		if (!fired) { if (ret || !v) return r.fail("new", "tsm_vte_new failed without a reason"); tsm_vte_unref(v); }
		if (g_mon.live) return r.fail("leak", fmt("%zu blocks left after tsm_vte_new with allocation %d failing", g_mon.live, k));
		Frame f = R.draw();
		g_mon.stop();
		std::string e = contract(f);
		if (!e.empty()) return r.fail("state", "screen damaged by a failed tsm_vte_new: " + e);
		if (!fired) break;
	}
	for (int k = 0; k < 8; k++) {	/* string conversion */
		uint32_t in[5] = { 'a', 0x20ac, 0x1f600, 0xd800, 'z' };
		g_mon.start(); g_mon.fail_in = k;
		size_t len = 77;
		char *p = tsm_ucs4_to_utf8_alloc(in, 5, &len);
		bool fired = g_mon.fired; g_mon.fail_in = -1;
		r.evals++; r.n["failures_injected"] += fired;
		if (!fired && !p) return r.fail("new", "conversion failed without a reason");
		if (p && (len != 9 || memcmp(p, "a\xe2\x82\xac\xf0\x9f\x98\x80z", 9))) return r.fail("new", "wrong text after a failed shrink");
		if (p) user_free(p);
		if (g_mon.live) return r.fail("leak", "string conversion leaks after a failed allocation");
		g_mon.stop();
		if (!fired) break;
	}
	return true;
}
static void eval02(const Case &c, Result &r)
{
	if (c.p.size() > 2 && c.p[2]) { bool ok = creation_under_failure(r); g_mon.stop(); if (!ok) return; }
	g_mon.start();
	Rng fr(c.p[1]);
	{
		Real A(c.p[0]), B(c.p[0]);
		bool lost_sel = false;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op &o = c.ops[i];
			bool inject = fr.p(0.6);
			int k = fr.p(0.5) ? 0 : fr.below(6);
			if (fr.p(0.1)) k = fr.below(80);
			bool all = fr.p(0.3);
			bool strict = o.k == O_RESIZE || o.k == O_PAL || o.k == O_CPAL || o.k == O_SELCOPY;
			Frame before;
			unsigned w0 = tsm_screen_get_width(A.s), h0 = tsm_screen_get_height(A.s);
			if (strict && inject) before = A.draw();
			uint64_t f0 = g_mon.fired;
			if (inject) { g_mon.fail_in = k; g_mon.fail_all = all; }
			int ret = 0;
			uint8_t pal[18][3];
			switch (o.k) {
			case O_RESIZE: ret = tsm_screen_resize(A.s, o.v(0), o.v(1)); break;
			case O_PAL: ret = tsm_vte_set_palette(A.v, o.has_s ? o.s.c_str() : nullptr); break;
			case O_CPAL: for (int j = 0; j < 54; j++) pal[j / 3][j % 3] = j < (int)o.s.size() ? o.s[j] : 0; ret = tsm_vte_set_custom_palette(A.v, o.has_s ? pal : nullptr); break;
			case O_SELCOPY: A.apply(o); ret = A.last_sel_ret; break;
			default: A.apply(o);
			}
			g_mon.fail_in = -1; g_mon.fail_all = false;
			bool fired = g_mon.fired != f0;
			r.n["operations"]++;
			if (fired) { r.n["failures_injected"]++; r.n[std::string("failed_in_") + op_name(o.k)]++; lost_sel = true; }
			if (!A.err.empty()) { r.fail("callback", A.err); goto out; }
			r.evals++;
			std::string where = fmt("operation %zu %s with a failing allocation: ", i + 1, op_str(o).c_str());
			if (strict && inject) {
				if (ret < 0 && ret != -ENOMEM && !(o.k == O_SELCOPY && ret == -ENOENT)) { r.fail("errno", where + fmt("returned %d", ret)); goto out; }
				if (ret == -ENOMEM && !fired) { r.fail("errno", where + "-ENOMEM without a failed allocation"); goto out; }
				if (fired && o.k != O_RESIZE && ret != -ENOMEM) { r.fail("silent", where + fmt("failure not reported (%d)", ret)); goto out; }
				if (ret < 0) {
					Frame f = A.draw();
					std::string e = f.w != w0 || f.h != h0 ? "size changed" : frame_diff(before, f, false);
					if (!e.empty()) { r.fail("not-atomic", where + "failed call changed the screen: " + e); goto out; }
					if (o.k != O_SELCOPY) { A.apply(o); r.n["failed_calls_retried"]++; }
				} else if (o.k == O_RESIZE && (tsm_screen_get_width(A.s) != o.v(0) || tsm_screen_get_height(A.s) != o.v(1)) && o.v(0) && o.v(1)) {
					r.fail("silent", where + "resize reported success but did not happen"); goto out;
				}
			}
			if (fired) {
				std::string e = contract(A.draw());
				if (!e.empty()) { r.fail("state", where + e); goto out; }
			}
			B.apply(o);
		}
		/* scroll-back lines may be lost, the screen must not be */
		for (Real *R : { &A, &B }) { tsm_screen_selection_reset(R->s); tsm_screen_sb_reset(R->s); }
		(void)lost_sel;
		std::string e = frame_diff(A.draw(), B.draw(), false);
		if (e.empty() && (tsm_screen_get_cursor_x(A.s) != tsm_screen_get_cursor_x(B.s) || tsm_screen_get_cursor_y(A.s) != tsm_screen_get_cursor_y(B.s))) e = "cursor differs";
		if (e.empty() && A.out != B.out) e = "output to the client differs";
		r.evals++;
		if (!e.empty()) { r.fail("diverged", "after recovered allocation failures the screen differs from one without failures: " + e); goto out; }
		if (tsm_screen_sb_get_line_count(A.s) > tsm_screen_sb_get_line_count(B.s)) { r.fail("sb", "more scroll-back lines than without failures"); goto out; }
		r.state = frame_hash(A.draw());
	}
	if (g_mon.live) r.fail("leak", fmt("%zu blocks (%zu bytes) left after everything was released", g_mon.live, g_mon.bytes));
	if (g_mon.bad_free) r.fail("free", "released a block twice or one that was never allocated");
out:
	g_mon.stop();
}

/* ---- C03: ownership and leaks ---- */
static void gen03(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C03", seed, i));
	c.p = { 1, (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(5, 40), true, c.ops, 0.05);
	Gen g(r.next());
	for (int k = r.p(0.4) ? r.range(1, 6) : 0; k--; ) c.ops.insert(c.ops.begin() + r.below(c.ops.size() + 1), pal_op(g));
}
struct Owned { struct tsm_vte *v; int refs; Real *sink; };
static void eval03(const Case &c, Result &r)
{
	g_mon.start();
	Rng q(c.p[1]);
	size_t pos = 0;
	{
		/* one screen, up to three terminals on it, references taken and dropped in any order */
		Real view(false);	/* borrowed handles, so that Real::apply can be used */
		Real sink(false);	/* receives the callbacks; its own screen is unused */
		size_t base = g_mon.live;
		struct tsm_screen *s = nullptr;
		int srefs = 0;
		std::vector<Owned> vs;
		if (tsm_screen_new(&s, nullptr, nullptr)) abort();
		srefs = 1;
		int steps = 40 + q.below(60);
		for (int k = 0; k < steps; k++) {
			bool have_s = srefs > 0 || !vs.empty();
			switch (q.w({ 4, 4, 3, 4, 4, 20, 2 })) {
			case 0: if (srefs > 0) { tsm_screen_ref(s); srefs++; r.n["refs"]++; } break;
			case 1: if (srefs > 0) { tsm_screen_unref(s); srefs--; r.n["unrefs"]++; } break;
			case 2: if (have_s && vs.size() < 3) {
				Owned o = { nullptr, 1, &sink };
				if (tsm_vte_new(&o.v, s, Real::write_cb, &sink, nullptr, nullptr)) abort();
				tsm_vte_set_osc_cb(o.v, Real::osc_cb, &sink); tsm_vte_set_mouse_cb(o.v, Real::mouse_cb, &sink);
				vs.push_back(o); r.n["terminals"]++;
			} break;
			case 3: if (!vs.empty()) { auto &o = vs[q.below(vs.size())]; tsm_vte_ref(o.v); o.refs++; r.n["refs"]++; } break;
			case 4: if (!vs.empty()) { size_t x = q.below(vs.size()); tsm_vte_unref(vs[x].v); r.n["unrefs"]++; if (!--vs[x].refs) vs.erase(vs.begin() + x); } break;
			case 5: if (have_s && pos < c.ops.size()) {
				const Op &o = c.ops[pos++];
				struct tsm_screen *keep = view.s;
				view.s = s;
				bool need_v = o.k == O_IN || o.k >= O_VRESET;
				if (!need_v || !vs.empty()) {
					view.v = vs.empty() ? nullptr : vs[q.below(vs.size())].v;
					if (o.k != O_OSCCB && o.k != O_MOUSECB) { view.apply(o); r.n["operations"]++; }
				}
				if (!view.err.empty()) r.fail("callback", view.err);
				view.v = nullptr; view.s = keep;
			} break;
			default: if (have_s) { uint32_t u[6]; for (auto &x : u) x = q.below(0x110000); size_t l; char *p = tsm_ucs4_to_utf8_alloc(u, 6, &l); user_free(p); }
			}
			if (!srefs && vs.empty()) {
				r.evals++;
				if (g_mon.live != base) r.fail("leak", fmt("%zd blocks left after the last reference was dropped", (ssize_t)(g_mon.live - base)));
				if (tsm_screen_new(&s, nullptr, nullptr)) abort();
				srefs = 1;
				r.n["objects_destroyed"]++;
			}
		}
		r.state = mix(pos, hash_bytes(&g_mon.calls, 8));
		while (srefs || !vs.empty()) {
			bool takes_s = srefs && (vs.empty() || q.p(0.5));
			if (takes_s) { tsm_screen_unref(s); srefs--; }
			else { tsm_vte_unref(vs.back().v); if (!--vs.back().refs) vs.pop_back(); }
			bool alive = srefs || !vs.empty();
			r.evals++;
			if (alive && g_mon.live == base) { r.fail("early", "everything released while references are still held"); break; }
			if (alive && srefs) (void)tsm_screen_get_width(s);
			if (alive && !vs.empty()) tsm_vte_input(vs.back().v, "x\x1b[6n", 5);
		}
		if (r.msg.empty() && g_mon.live != base) r.fail("leak", fmt("%zd blocks left after the last reference was dropped", (ssize_t)(g_mon.live - base)));
	}
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left at the end", g_mon.live));
	if (g_mon.bad_free) r.fail("free", "released a block twice or one that was never allocated");
	r.n["allocations"] += g_mon.calls;
	g_mon.stop();
}

/* ---- C04: the drawing contract ---- */
static void gen04(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C04", seed, i));
	bool vte = r.p(0.7);
	c.p = { vte, (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(10, 70), vte, c.ops, 0.1);
}
static std::string only_inverse_differs(const Frame &a, const Frame &b, int64_t x, int64_t y)	/* at (x,y) and nowhere else; everywhere if y < 0 */
{
	for (size_t i = 0; i < a.c.size(); i++) {
		DCell p = a.c[i], q = b.c[i];
		bool want = y < 0 || (int64_t(i % a.w) == x && int64_t(i / a.w) == y);
		bool inv = p.a.inverse != q.a.inverse;
		q.a.inverse = p.a.inverse;
		if (p.ch != q.ch || p.w != q.w || p.a != q.a) return fmt("cell (%zu,%zu) differs in more than its inversion", i % a.w, i / a.w);
		if (inv != want) return fmt("cell (%zu,%zu) is%s inverted", i % a.w, i / a.w, inv ? "" : " not");
	}
	return "";
}
static std::string ids_ok(const Frame &f, std::map<uint64_t, uint64_t> &ids, std::map<uint64_t, uint64_t> &rev)
{
	for (size_t i = 0; i < f.c.size(); i++) {
		const DCell &c = f.c[i];
		if (!c.ch) continue;
		uint64_t look = uint64_t(c.ch) | uint64_t(c.a.bold | c.a.italic << 1 | c.a.underline << 2 | c.a.inverse << 3 | c.a.blink << 4) << 32;
		auto it = ids.emplace(f.id[i], look).first;
		if (it->second != look) return fmt("glyph id %llx stands for two different glyphs (%llx, %llx)", (unsigned long long)f.id[i], (unsigned long long)it->second, (unsigned long long)look);
		auto jt = rev.emplace(look, f.id[i]).first;
		if (jt->second != f.id[i]) return "the same glyph has two ids";
	}
	return "";
}
static void eval04(const Case &c, Result &r)
{
	Real R(c.p[0]);
	Rng q(c.p[1]);
	std::map<uint64_t, uint64_t> ids, rev;
	size_t budget = 0;
	for (size_t i = 0; i < c.ops.size(); i++) {
		R.apply(c.ops[i]);
		unsigned w = tsm_screen_get_width(R.s), h = tsm_screen_get_height(R.s), cx = tsm_screen_get_cursor_x(R.s), cy = tsm_screen_get_cursor_y(R.s);
		std::string at = fmt("after operation %zu %s: ", i + 1, op_str(c.ops[i]).c_str());
		r.evals++;
		if (cx > w || cy >= h) { r.fail("cursor", at + fmt("cursor (%u,%u) outside of %ux%u", cx, cy, w, h)); return; }
		budget += size_t(w) * h;
		if (budget < 500 && i + 1 != c.ops.size()) continue;
		budget = 0;
		Frame f = R.draw(q.p(0.3) ? -1 : 0);
		std::string e = contract(f);
		if (!e.empty()) { r.fail("contract", at + e); return; }
		for (size_t k = 0; k < f.c.size(); k++) if (f.c[k].w > 2) { r.fail("width", at + fmt("cell of width %u", f.c[k].w)); return; }
		for (size_t k = 0; k < f.c.size(); k++) if (f.c[k].ch & 0x80000000u) { r.fail("text", at + "cell with more than one code point"); return; }
		e = ids_ok(f, ids, rev);
		if (!e.empty()) { r.fail("id", at + e); return; }
		r.n["frames"]++; r.n["cells"] += f.c.size();
		if (q.p(0.2) || i + 1 == c.ops.size()) {
			/* the cursor inverts exactly the cell it is on; inverse video inverts all */
			unsigned fl = tsm_screen_get_flags(R.s);
			/* scrolled back, the screen begins so many rows further down and its cursor with it */
			unsigned back = tsm_screen_sb_get_line_count(R.s) - tsm_screen_sb_get_line_pos(R.s);
			if (fl & F_HIDE) tsm_screen_reset_flags(R.s, F_HIDE); else tsm_screen_set_flags(R.s, F_HIDE);
			Frame g0 = R.draw();
			e = only_inverse_differs(f, g0, cx < w ? cx : w - 1, int64_t(cy) + back);
			if (!e.empty()) { r.fail("cursor", at + fmt("toggling the cursor (%u,%u), scrolled back by %u: ", cx, cy, back) + e); return; }
			if (fl & F_HIDE) tsm_screen_set_flags(R.s, F_HIDE); else tsm_screen_reset_flags(R.s, F_HIDE);
			if (back) r.n["scrolled_back_probes"]++;
			if (fl & F_INVERSE) tsm_screen_reset_flags(R.s, F_INVERSE); else tsm_screen_set_flags(R.s, F_INVERSE);
			Frame g = R.draw();
			e = only_inverse_differs(f, g, -1, -1);
			if (!e.empty()) { r.fail("inverse", at + "toggling inverse video: " + e); return; }
			if (fl & F_INVERSE) tsm_screen_set_flags(R.s, F_INVERSE); else tsm_screen_reset_flags(R.s, F_INVERSE);
			r.n["highlight_probes"]++;
		}
	}
	r.n["glyph_ids"] += ids.size();
	r.state = frame_hash(R.draw());
}

/* ---- comparing two real terminals ---- */
static std::string same(Real &A, Real &B, bool loose = false)
{
	if (!A.err.empty()) return A.err;
	if (!B.err.empty()) return B.err;
	Frame fa = A.draw(), fb = B.draw();
	/* beside a line of the history that is narrower than the screen there is blank space in the current default
	 * attribute; how wide the lines of the history are depends on all former widths */
	if (loose && tsm_screen_sb_get_line_pos(A.s) != tsm_screen_sb_get_line_count(A.s) && fa.c.size() == fb.c.size())
		for (size_t i = 0; i < fa.c.size(); i++) if (!fa.c[i].ch && !fb.c[i].ch) fa.c[i].a = fb.c[i].a;
	std::string e = frame_diff(fa, fb, false);
	if (!e.empty()) return e;
	if (tsm_screen_get_cursor_x(A.s) != tsm_screen_get_cursor_x(B.s) || tsm_screen_get_cursor_y(A.s) != tsm_screen_get_cursor_y(B.s))
		return fmt("cursor (%u,%u) / (%u,%u)", tsm_screen_get_cursor_x(A.s), tsm_screen_get_cursor_y(A.s), tsm_screen_get_cursor_x(B.s), tsm_screen_get_cursor_y(B.s));
	if (tsm_screen_get_flags(A.s) != tsm_screen_get_flags(B.s)) return fmt("screen flags %#x / %#x", tsm_screen_get_flags(A.s), tsm_screen_get_flags(B.s));
	if (tsm_screen_sb_get_line_count(A.s) != tsm_screen_sb_get_line_count(B.s)) return "scroll-back size differs";
	if (tsm_screen_sb_get_line_pos(A.s) != tsm_screen_sb_get_line_pos(B.s)) return "scroll-back position differs";
	if (A.v) {
		if (A.out != B.out) return "bytes to the client \"" + esc_bytes(A.out) + "\" / \"" + esc_bytes(B.out) + "\"";
		if (A.osc != B.osc) return fmt("OSC strings differ (%zu / %zu)", A.osc.size(), B.osc.size());
		if (A.mouse.size() != B.mouse.size()) return "mouse notices differ";
		for (size_t i = 0; i < A.mouse.size(); i++) if (A.mouse[i].event != B.mouse[i].event || A.mouse[i].pixel != B.mouse[i].pixel) return "mouse notices differ";
		if (tsm_vte_get_flags(A.v) != tsm_vte_get_flags(B.v)) return fmt("terminal flags %#x / %#x", tsm_vte_get_flags(A.v), tsm_vte_get_flags(B.v));
		if (tsm_vte_get_mouse_mode(A.v) != tsm_vte_get_mouse_mode(B.v) || tsm_vte_get_mouse_event(A.v) != tsm_vte_get_mouse_event(B.v)) return "mouse state differs";
		struct tsm_screen_attr x, y;
		memset(&x, 0, sizeof x); memset(&y, 0, sizeof y);
		tsm_vte_get_def_attr(A.v, &x); tsm_vte_get_def_attr(B.v, &y);
		if (from_tsm(&x) != from_tsm(&y)) return "default attribute differs";
	}
	return "";
}
static uint64_t state_of(Real &A) { return hash_str(A.out, frame_hash(A.draw()) + tsm_screen_get_cursor_x(A.s) * 31 + tsm_screen_get_cursor_y(A.s)); }

/* ---- C05: chunking ---- */
static void gen05(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C05", seed, i));
	c.p = { (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(10, 80), true, c.ops, 0.1);
}
static void eval05(const Case &c, Result &r)
{
	Real A, B;
	Rng q(c.p[0]);
	std::string pend;
	int style = q.below(4);	/* one byte at a time, random pieces, few cuts, empty pieces in between */
	auto flush = [&] {
		if (pend.empty()) return;
		A.feed(pend);
		for (size_t i = 0; i < pend.size(); ) {
			size_t n = style == 0 ? 1 : style == 1 ? q.range(1, 4) : q.range(1, 40);
			if (n > pend.size() - i) n = pend.size() - i;
			if (style == 3 && q.p(0.3)) tsm_vte_input(B.v, pend.data() + i, 0);
			std::string piece(pend, i, n);	/* a copy of its own: reading past the piece is an error */
			B.feed(piece);
			i += n;
			r.n["pieces"]++;
		}
		r.n["bytes"] += pend.size();
		pend.clear();
	};
	for (size_t i = 0; i < c.ops.size(); i++) {
		const Op &o = c.ops[i];
		if (o.k == O_IN) { pend += o.s; if (q.p(0.7)) continue; flush(); }
		else { flush(); A.apply(o); B.apply(o); }
		if (q.p(0.2)) {
			r.evals++;
			std::string e = same(A, B);
			if (!e.empty()) { r.fail("chunk", fmt("after operation %zu: in one piece / in several pieces: ", i + 1) + e); return; }
		}
	}
	flush();
	r.evals++;
	std::string e = same(A, B);
	if (!e.empty()) r.fail("chunk", "in one piece / in several pieces: " + e);
	r.state = state_of(A);
}

/* ---- C18: ageing: a renderer that redraws only what is newer than its last frame ---- */
static void gen18(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C18", seed, i));
	bool vte = r.p(0.6);
	c.p = { vte, (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(20, 150), vte, c.ops, 0.02);
	if (!r.p(0.35)) return;
	/* a view into the history, with lines of several widths, on which everything that can happen to it happens */
	Gen g(r.next());
	Mod M(vte);
	g.s = &M.s; g.vte = vte; g.wide_ok = false;
	std::vector<Op> v;
	auto line = [&] { std::string t = g.ascii(r.below(6)); if (vte) return v.push_back(IN(t + "\r\n")); for (char ch : t) v.push_back(g.write(ch, g.rattr())); v.push_back(Op(O_NEWLINE)); };
	if (r.p(0.8)) v.push_back(Op(O_MAXSB, { r.range(1, 40) }));
	for (int part = r.range(1, 3); part--; ) {
		v.push_back(Op(O_RESIZE, { r.range(1, 12), r.range(1, 6) }));
		for (int n = r.range(1, 12); n--; ) line();
	}
	if (r.p(0.7)) v.push_back(Op(O_RESIZE, { r.range(1, 16), r.range(1, 6) }));
	v.push_back(Op(O_SBUP, { r.range(1, 10) }));
	for (int n = r.range(3, 25); n--; ) switch (r.w({ 4, 4, 4, 3, 2, 2, 1, 2, 2, 2, 2, 2, 1, 2 })) {
	case 0: line(); break;
	case 1: v.push_back(Op(O_SBUP, { r.range(1, 5) })); break;
	case 2: v.push_back(Op(O_SBDOWN, { r.range(1, 5) })); break;
	case 3: { Op w = g.write('x', g.rattr()); w.a.erase(w.a.begin()); v.push_back(Op(O_DEFATTR, w.a)); break; }
	case 4: if (vte) v.push_back(pal_op(g)); break;
	case 5: v.push_back(Op(O_RESIZE, { r.range(1, 16), r.range(1, 6) })); break;
	case 6: v.push_back(Op(O_MAXSB, { r.range(0, 10) })); break;
	case 7: v.push_back(Op(O_SELST, { r.range(0, 15), r.range(0, 6) })); break;
	case 8: v.push_back(Op(O_SELTGT, { r.range(0, 15), r.range(0, 6) })); break;
	case 9: v.push_back(Op(O_SELRST)); break;
	case 10: v.push_back(Op(r.p(0.5) ? O_SETF : O_CLRF, { (int64_t)r.pick(std::vector<int>{ F_INVERSE, F_HIDE, F_ALT, F_FIXED }) })); break;
	case 11: v.push_back(r.p(0.5) ? Op(O_SCRUP, { r.range(1, 3) }) : Op(O_SCRDN, { r.range(1, 3) })); break;
	case 12: v.push_back(r.p(0.5) ? Op(O_SBRESET) : Op(O_CLEARSB)); break;
	default: v.push_back(r.p(0.5) ? g.cup(r.below(8), r.below(6)) : Op(O_ERALL, { 0 })); break;
	}
	c.ops.insert(c.ops.begin() + (r.p(0.5) ? 0 : r.below(c.ops.size() + 1)), v.begin(), v.end());
}
static void eval18(const Case &c, Result &r)
{
	Real R(c.p[0]);
	Rng q(c.p[1]);
	std::vector<DCell> cache;
	std::vector<uint64_t> ids;
	unsigned w = 0, h = 0;
	uint64_t last = 0;
	double rate = q.pick(std::vector<double>{ 1.0, 0.5, 0.15, 0.03 });
	for (size_t i = 0; i < c.ops.size(); i++) {
		R.apply(c.ops[i]);
		if (!q.p(rate) && i + 1 != c.ops.size()) continue;
		Frame f = R.draw();
		std::string e = contract(f);
		if (!e.empty()) { r.fail("contract", e); return; }
		if (f.w != w || f.h != h) { w = f.w; h = f.h; last = 0; cache.assign(f.c.size(), DCell()); ids.assign(f.c.size(), 0); }
		uint64_t skipped = 0;
		for (size_t k = 0; k < f.c.size(); k++) {
			bool skip = last && f.age[k] && f.age[k] <= last;
			if (!skip) { cache[k] = f.c[k]; ids[k] = f.id[k]; continue; }
			skipped++;
			const DCell &a = cache[k], &b = f.c[k];
			if (a.ch != b.ch || a.w != b.w || a.a != b.a || ids[k] != f.id[k]) {
				r.fail("stale", fmt("after operation %zu %s: cell (%zu,%zu) changed but its age %llu does not exceed the age %llu of the previous frame: was U+%04x %s, is U+%04x %s",
					i + 1, op_str(c.ops[i]).substr(0, 60).c_str(), k % w, k / w, (unsigned long long)f.age[k], (unsigned long long)last, a.ch, attr_str(a.a).c_str(), b.ch, attr_str(b.a).c_str()));
				return;
			}
		}
		r.evals++;
		r.n["frames"]++; r.n["cells"] += f.c.size(); r.n["cells_skipped_as_unchanged"] += skipped;
		if (!f.ret) r.n["age_resets"]++;
		last = f.ret;
	}
	r.state = state_of(R);
}

/* ---- C24: a hard reset is as good as a new terminal ---- */
static void gen24(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C24", seed, i));
	c.p = { (int64_t)r.below(2) };
	hostile_ops(r.next(), r.range(10, 80), true, c.ops, 0.05);
	Gen g(r.next());
	if (r.p(0.1)) {		/* tab stops anywhere */
		int64_t w = r.p(0.6) ? r.range(100, 700) : r.range(2, 100);
		c.ops.push_back(Op(O_RESIZE, { w, r.range(1, 4) }));
		for (int k = r.range(1, 4); k--;) c.ops.push_back(IN(fmt("\x1b[%dG", (int)r.range(1, w)) + r.pick(std::vector<std::string>{ "\x1bH", "\x1bH", "\x1b[g", "\xc2\x88" })));
		if (r.p(0.2)) c.ops.push_back(IN("\x1b[3g"));
	}
	std::vector<Op> probe;		/* what the terminal remembers of the mouse does not survive */
	if (r.p(0.2)) {
		int64_t x = r.range(0, 60), y = r.range(0, 20);
		std::string m = r.pick(std::vector<std::string>{ "\x1b[?1003h", "\x1b[?1003;1006h", "\x1b[?1003;1016h", "\x1b[?1002h", "\x1b[?1002;1006h" });
		auto at = [&](int64_t a, int64_t b) { return Op(O_MOUSE, { a, b, a * 8, b * 16, r.range(0, 3), 4, r.pick(std::vector<int64_t>{ 0, 0, 4, 16 }) }); };
		c.ops.push_back(IN(m)); c.ops.push_back(at(x, y));
		if (r.p(0.3)) c.ops.push_back(IN("\x1b[?1003l\x1b[?1002l"));
		probe.push_back(IN(m));
		switch (r.below(4)) { case 0: probe.push_back(at(x, y)); break; case 1: probe.push_back(at(x, 0)); break; case 2: probe.push_back(at(0, y)); break; default: probe.push_back(at(0, 0)); }
	}
	c.p.push_back(c.ops.size());		/* history ends here */
	c.ops.insert(c.ops.end(), probe.begin(), probe.end());
	Mod M(true);
	g.s = &M.s;
	for (auto &o : c.ops) if (o.k == O_RESIZE) M.apply(o);
	int n = r.range(5, 50);
	while (n-- > 0 || !g.pend.empty()) {
		Op o = g.pend.empty() ? gen_any(g) : g.pop();
		if (c.ops.size() - c.p[1] > 200) break;
		M.apply(o);
		c.ops.push_back(o);
	}
}
static void eval24(const Case &c, Result &r)
{
	Real A, B;
	size_t cut = std::min<size_t>(c.p[1], c.ops.size());
	for (size_t i = 0; i < cut; i++) {
		const Op &o = c.ops[i];
		A.apply(o);
		/* configuration made by the embedding application stays in force */
		if (o.k == O_PAL || o.k == O_CPAL || o.k == O_BSDEL || o.k == O_OSCCB || o.k == O_MOUSECB || o.k == O_MAXSB) B.apply(o);
	}
	tsm_screen_resize(B.s, tsm_screen_get_width(A.s), tsm_screen_get_height(A.s));
	/* the alternate screen of a new terminal shows the colours of a bare screen until it is first erased */
	tsm_screen_set_flags(B.s, F_ALT); tsm_screen_erase_screen(B.s, false); tsm_screen_reset_flags(B.s, F_ALT);
	tsm_screen_clear_sb(B.s);	/* lines that the resizing pushed out */
	/* the selection is the user's: dropped before or after the reset, it must make no difference to what the reset does */
	if (c.ops.size() & 1) tsm_screen_selection_reset(A.s);
	if (c.p[0]) tsm_vte_hard_reset(A.v); else A.feed("\x1b" "c");
	if (!(c.ops.size() & 1)) tsm_screen_selection_reset(A.s);
	A.out.clear(); B.out.clear(); A.osc.clear(); B.osc.clear(); A.mouse.clear(); B.mouse.clear();
	std::string e = same(A, B, true);
	r.evals++;
	if (!e.empty()) { r.fail("reset", "after a hard reset / new terminal: " + e); return; }
	if (c.ops.size() % 3 == 0) {	/* walk over all tab stops */
		A.feed("\r"); B.feed("\r");
		for (unsigned x = 0;;) {
			A.feed("\t"); B.feed("\t");
			unsigned a = tsm_screen_get_cursor_x(A.s), b = tsm_screen_get_cursor_x(B.s);
			if (a != b) { r.fail("tab", fmt("after a hard reset / new terminal: the tab stop after column %u is at %u / %u", x, a, b)); return; }
			if (a <= x) break;
			x = a;
			r.n["tab_stops"]++;
		}
		A.feed("\r"); B.feed("\r");
	}
	for (size_t i = cut; i < c.ops.size(); i++) {
		A.apply(c.ops[i]); B.apply(c.ops[i]);
		if (c.ops[i].k == O_SELCOPY && (A.last_sel != B.last_sel || A.last_sel_ret != B.last_sel_ret)) { r.fail("later", "selected text differs after a hard reset"); return; }
		if (i % 4 && i + 1 != c.ops.size()) continue;
		r.evals++;
		e = same(A, B, true);
		if (!e.empty()) { r.fail("later", fmt("operation %zu %s after a hard reset behaves differently from a new terminal: ", i + 1, op_str(c.ops[i]).c_str()) + e); return; }
	}
	r.n["operations_before_reset"] += cut; r.n["operations_after_reset"] += c.ops.size() - cut;
	r.state = state_of(A);
}

/* ---- C36: observers do not disturb ---- */
static void gen36(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C36", seed, i));
	bool vte = r.p(0.75);
	c.p = { vte, (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(10, 80), vte, c.ops, 0.05);
}
static void eval36(const Case &c, Result &r)
{
	Real A(c.p[0]), B(c.p[0], c.p[1] & 1);	/* with and without a log handler */
	Rng q(c.p[1]);
	for (size_t i = 0; i < c.ops.size(); i++) {
		A.apply(c.ops[i]); B.apply(c.ops[i]);
		int n = q.w({ 3, 3, 1 });
		while (n--) {
			switch (q.below(4)) {
			case 0: B.draw(q.p(0.3)); break;
			case 1: B.apply(Op(O_SELCOPY)); break;
			case 2: B.apply(Op(O_GETTERS)); break;
			default: if (c.p[0]) { tsm_vte_input(B.v, "", 0); } tsm_screen_ref(B.s); tsm_screen_unref(B.s); break;
			}
			r.n["observations"]++;
		}
		if (q.p(0.1)) {	/* drawing twice gives the same picture */
			Frame f = B.draw(), g = B.draw();
			std::string e = frame_diff(f, g, true);
			if (f.ret && g.ret && !e.empty()) { r.fail("draw", "two consecutive drawings differ: " + e); return; }
			r.evals++;
		}
	}
	r.evals++; r.n["messages_logged"] += B.logs;
	std::string e = same(A, B);
	if (!e.empty()) r.fail("observer", "without / with observations in between: " + e);
	A.apply(Op(O_SELCOPY)); B.apply(Op(O_SELCOPY));
	if (A.last_sel != B.last_sel || A.last_sel_ret != B.last_sel_ret) r.fail("observer", "selected text differs");
	r.state = state_of(A);
}

/* ---- C40: bounded work and memory ---- */
static void gen40(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C40", seed, i));
	bool vte = r.p(0.7);
	c.p = { vte };
	hostile_ops(r.next(), r.range(10, 80), vte, c.ops, 0.4);
	if (vte && r.p(0.3)) {	/* sequences that never end */
		std::string t = r.pick(std::vector<std::string>{ "\x1b[", "\x1b]", "\x1bP", "\x1b_", "\x1b[1;", "\x1b#", "\x1b[?" });
		std::string unit = r.pick(std::vector<std::string>{ "1", ";", "a", " ", "#", "9;", "\xc3\xa9", "?" });
		for (int k = r.range(200, 5000); k--; ) t += unit;
		c.ops.push_back(IN(t));
	}
}
static void eval40(const Case &c, Result &r)
{
	g_mon.start();
	{
		Real R(c.p[0]);
		uint64_t maxw = 80, maxh = 24, peak_sb = 0;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op &o = c.ops[i];
			uint64_t sb0 = tsm_screen_sb_get_line_count(R.s);
			uint64_t w0 = tsm_screen_get_width(R.s), h0 = tsm_screen_get_height(R.s);
			uint64_t s0 = g_steps;
			g_steps_limit = s0 + 300000000;
			R.apply(o);
			uint64_t steps = g_steps - s0;
			g_steps_limit = 0;
			maxw = std::max<uint64_t>(maxw, tsm_screen_get_width(R.s)); maxh = std::max<uint64_t>(maxh, tsm_screen_get_height(R.s));
			uint64_t sb = std::max<uint64_t>(sb0, tsm_screen_sb_get_line_count(R.s));
			peak_sb = std::max(peak_sb, sb);
			uint64_t unit = o.k == O_IN ? o.s.size() : 1;
			/* every byte of input may touch the whole screen a few times; a call of the application the history, too */
			uint64_t area = std::max<uint64_t>(w0, tsm_screen_get_width(R.s)) * std::max<uint64_t>(h0, tsm_screen_get_height(R.s));
			uint64_t bound = (unit + 1) * (400 + 6 * area) + 10 * area + 20 * sb + (o.k == O_SELCOPY ? 60 * (sb * maxw + area) : 0) + (o.k == O_RESIZE ? 20 * maxw * maxh : 0);
			r.evals++;
			uint64_t pm = steps * 1000 / bound;
			if (pm > r.n["max_permille_of_step_bound"]) r.n["max_permille_of_step_bound"] = pm;
			if (steps > bound) { r.fail("work", fmt("operation %zu %s executed %llu steps (bound %llu)", i + 1, op_str(o).substr(0, 80).c_str(), (unsigned long long)steps, (unsigned long long)bound)); break; }
			uint64_t mem = 65536 + (sb + 2 * maxh + 8) * (maxw * 64 + 256);
			uint64_t mm = g_mon.bytes * 1000 / mem;
			if (mm > r.n["max_permille_of_memory_bound"]) r.n["max_permille_of_memory_bound"] = mm;
			if (g_mon.bytes > mem) { r.fail("memory", fmt("after operation %zu %s: %zu bytes allocated (bound %llu)", i + 1, op_str(o).substr(0, 80).c_str(), g_mon.bytes, (unsigned long long)mem)); break; }
			r.n["steps"] += steps;
		}
		r.state = state_of(R);
		count_ops(c, r);
	}
	g_mon.stop();
}

/* ---- C41: 8-bit C1 controls and their 7-bit escape forms ---- */
static void gen41(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C41", seed, i));
	Gen g(r.next());
	Mod M(true);
	g.s = &M.s;
	g.pend.push_back(g.init_size());
	int n = r.range(10, 60);
	int raw = r.w({ 6, 2 });	/* 1: the terminal is switched to 8-bit mode, C1 controls are single bytes */
	c.p = { raw, (int64_t)(r.next() >> 1) };
	if (raw) g.pend.push_back(IN("\x1b[62;1\"p"));
	while (n-- > 0 || !g.pend.empty()) {
		Op o = g.pend.empty() ? gen_any(g) : g.pop();
		if (o.k == O_IN && r.p(0.3)) {
			std::string t = "\x1b" + std::string(1, char('@' + r.below(32)));
			o.s.insert(r.p(0.5) ? o.s.size() : r.below(o.s.size() + 1), t);
		}
		M.apply(o);
		c.ops.push_back(o);
		if (c.ops.size() > 300) break;
	}
}
static void eval41(const Case &c, Result &r)
{
	Real A, B;
	Rng q(c.p[1]);
	for (size_t i = 0; i < c.ops.size(); i++) {
		const Op &o = c.ops[i];
		A.apply(o);
		if (o.k == O_IN) {
			for (size_t k = 0; k < o.s.size(); k++) {
				unsigned char ch = o.s[k];
				bool c1 = ch == 0x1b && k + 1 < o.s.size() && o.s[k + 1] >= 0x40 && o.s[k + 1] <= 0x5f;
				unsigned fl = tsm_vte_get_flags(B.v);
				if (c1 && !(fl & V_7BIT) && q.p(0.8)) {
					B.feed(std::string(fl & V_8BIT ? "" : "\xc2") + char(o.s[k + 1] + 0x40));
					k++;
					r.n["c1_controls_exchanged"]++;
				} else B.feed(std::string(1, ch));
			}
		} else B.apply(o);
		if (i % 5 && i + 1 != c.ops.size()) continue;
		r.evals++;
		std::string e = same(A, B);
		if (!e.empty()) { r.fail("c1", fmt("after operation %zu %s: with ESC forms / with C1 controls: ", i + 1, op_str(o).c_str()) + e); return; }
	}
	r.state = state_of(A);
}

/* ---- C35: invalid arguments ---- */
static void gen35(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C35", seed, i));
	c.p = { 1, (int64_t)(r.next() >> 1) };
	hostile_ops(r.next(), r.range(0, 50), true, c.ops, 0.05);
}
static int nop_draw(struct tsm_screen *, uint64_t, const uint32_t *, size_t, unsigned, unsigned, unsigned, const struct tsm_screen_attr *, tsm_age_t, void *d) { (*(int *)d)++; return 0; }
static void eval35(const Case &c, Result &r)
{
	Real R, B;
	for (auto &o : c.ops) { R.apply(o); B.apply(o); }
	struct tsm_screen_attr at; memset(&at, 0, sizeof at);
	struct tsm_screen *s = nullptr, *S = R.s;
	struct tsm_vte *v = nullptr, *V = R.v;
	struct tsm_vte *nv = nullptr;
	int calls = 0;
#define REJ(e, want) do { auto got_ = (e); r.evals++; if ((long long)got_ != (long long)(want)) { r.fail("accepted", fmt("%s returned %lld, expected %lld", #e, (long long)got_, (long long)(want))); return; } } while (0)
#define NOP(e) do { e; r.evals++; } while (0)
	REJ(tsm_screen_new(nullptr, nullptr, nullptr), -EINVAL);
	REJ(tsm_vte_new(nullptr, S, Real::write_cb, &R, nullptr, nullptr), -EINVAL);
	REJ(tsm_vte_new(&nv, nullptr, Real::write_cb, &R, nullptr, nullptr), -EINVAL);
	REJ(tsm_vte_new(&nv, S, nullptr, &R, nullptr, nullptr), -EINVAL);
	if (nv) { r.fail("accepted", "a rejected tsm_vte_new stored an object"); return; }
	NOP(tsm_screen_ref(s)); NOP(tsm_screen_unref(s)); NOP(tsm_vte_ref(v)); NOP(tsm_vte_unref(v));
	REJ(tsm_screen_get_width(s), 0); REJ(tsm_screen_get_height(s), 0);
	REJ(tsm_screen_resize(s, 10, 10), -EINVAL); REJ(tsm_screen_resize(S, 0, 10), -EINVAL); REJ(tsm_screen_resize(S, 10, 0), -EINVAL); REJ(tsm_screen_resize(S, 0, 0), -EINVAL);
	REJ(tsm_screen_set_margins(s, 1, 2), -EINVAL);
	NOP(tsm_screen_set_max_sb(s, 3)); NOP(tsm_screen_clear_sb(s)); NOP(tsm_screen_sb_up(s, 1)); NOP(tsm_screen_sb_down(s, 1));
	NOP(tsm_screen_sb_page_up(s, 1)); NOP(tsm_screen_sb_page_down(s, 1)); NOP(tsm_screen_sb_reset(s));
	REJ(tsm_screen_sb_get_line_count(s), 0); REJ(tsm_screen_sb_get_line_pos(s), 0);
	NOP(tsm_screen_set_def_attr(s, &at)); NOP(tsm_screen_set_def_attr(S, nullptr)); NOP(tsm_screen_reset(s));
	NOP(tsm_screen_set_flags(s, 1)); NOP(tsm_screen_reset_flags(s, 1)); NOP(tsm_screen_set_flags(S, 0)); NOP(tsm_screen_reset_flags(S, 0));
	REJ(tsm_screen_get_flags(s), 0); REJ(tsm_screen_get_cursor_x(s), 0); REJ(tsm_screen_get_cursor_y(s), 0);
	NOP(tsm_screen_set_tabstop(s)); NOP(tsm_screen_reset_tabstop(s)); NOP(tsm_screen_reset_all_tabstops(s));
	NOP(tsm_screen_write(s, 'x', &at)); NOP(tsm_screen_write(S, 'x', nullptr)); NOP(tsm_screen_newline(s));
	NOP(tsm_screen_scroll_up(s, 1)); NOP(tsm_screen_scroll_down(s, 1)); NOP(tsm_screen_scroll_up(S, 0)); NOP(tsm_screen_scroll_down(S, 0));
	NOP(tsm_screen_move_to(s, 1, 1)); NOP(tsm_screen_move_up(s, 1, true)); NOP(tsm_screen_move_down(s, 1, true)); NOP(tsm_screen_move_left(s, 1)); NOP(tsm_screen_move_right(s, 1));
	NOP(tsm_screen_move_up(S, 0, true)); NOP(tsm_screen_move_down(S, 0, true)); NOP(tsm_screen_move_left(S, 0)); NOP(tsm_screen_move_right(S, 0));
	NOP(tsm_screen_move_line_end(s)); NOP(tsm_screen_move_line_home(s)); NOP(tsm_screen_tab_right(s, 1)); NOP(tsm_screen_tab_left(s, 1)); NOP(tsm_screen_tab_right(S, 0)); NOP(tsm_screen_tab_left(S, 0));
	NOP(tsm_screen_insert_lines(s, 1)); NOP(tsm_screen_delete_lines(s, 1)); NOP(tsm_screen_insert_chars(s, 1)); NOP(tsm_screen_delete_chars(s, 1));
	NOP(tsm_screen_insert_lines(S, 0)); NOP(tsm_screen_delete_lines(S, 0)); NOP(tsm_screen_insert_chars(S, 0)); NOP(tsm_screen_delete_chars(S, 0));
	NOP(tsm_screen_erase_cursor(s)); NOP(tsm_screen_erase_chars(s, 1)); NOP(tsm_screen_erase_chars(S, 0)); NOP(tsm_screen_erase_cursor_to_end(s, false)); NOP(tsm_screen_erase_home_to_cursor(s, false));
	NOP(tsm_screen_erase_current_line(s, false)); NOP(tsm_screen_erase_screen_to_cursor(s, false)); NOP(tsm_screen_erase_cursor_to_screen(s, false)); NOP(tsm_screen_erase_screen(s, false));
	NOP(tsm_screen_selection_reset(s)); NOP(tsm_screen_selection_start(s, 1, 1)); NOP(tsm_screen_selection_target(s, 1, 1));
	char *out = nullptr;
	REJ(tsm_screen_selection_copy(s, &out), -EINVAL); REJ(tsm_screen_selection_copy(S, nullptr), -EINVAL);
	REJ(tsm_screen_draw(s, nop_draw, &calls), 0); REJ(tsm_screen_draw(S, nullptr, &calls), 0); REJ(calls, 0);
	NOP(tsm_vte_set_osc_cb(v, Real::osc_cb, &R)); NOP(tsm_vte_set_mouse_cb(v, Real::mouse_cb, &R));
	REJ(tsm_vte_set_palette(v, "vga"), -EINVAL); REJ(tsm_vte_set_custom_palette(v, nullptr), -EINVAL);
	struct tsm_screen_attr g; memset(&g, 0x5a, sizeof g);
	NOP(tsm_vte_get_def_attr(v, &g)); NOP(tsm_vte_get_def_attr(V, nullptr));
	REJ(tsm_vte_get_flags(v), 0); REJ(tsm_vte_get_mouse_mode(v), 0); REJ(tsm_vte_get_mouse_event(v), 0);
	NOP(tsm_vte_reset(v)); NOP(tsm_vte_hard_reset(v)); NOP(tsm_vte_input(v, "x", 1)); NOP(tsm_vte_input(V, "x", 0)); NOP(tsm_vte_input(V, nullptr, 0));
	NOP(tsm_vte_set_backspace_sends_delete(v, true));
	REJ(tsm_vte_handle_keyboard(v, 'a', 'a', 0, 'a'), false);
	REJ(tsm_vte_handle_mouse(v, 1, 1, 1, 1, 0, 1, 0), false);
	size_t l = 99;
	REJ(tsm_ucs4_to_utf8_alloc(nullptr, 0, &l) == nullptr ? 0 : 1, 0);
	std::string e = same(R, B);
	if (!e.empty()) r.fail("effect", "rejected calls changed the terminal: " + e);
	r.n["rejected_calls"] += r.evals;
	r.state = state_of(R);
}

/* ---- C39: nothing depends on uninitialised memory ---- */
static void gen39(uint64_t seed, uint64_t i, bool, Case &c)
{
	Rng r(cseed("C39", seed, i));
	bool vte = r.p(0.75);
	c.p = { vte };
	hostile_ops(r.next(), r.range(10, 80), vte, c.ops, 0.1);
	c.ops.push_back(Op(O_SELCOPY));
}
static void transcript(const Case &c, int fill, std::vector<std::string> &T, std::vector<Frame> &F, Result &r)
{
	g_mon.fill = fill;
	Real R(c.p[0]);
	uint64_t cells = 0;
	for (size_t i = 0; i <= c.ops.size(); i++) {
		if (i < c.ops.size()) R.apply(c.ops[i]);
		std::string t;
		if (i == c.ops.size() || c.ops[i].k == O_DRAW || (cells += tsm_screen_get_width(R.s) * tsm_screen_get_height(R.s)) > 1000) {
			cells = 0;
			F.push_back(R.draw());
			if (!F.back().err.empty()) r.fail("uninit", fmt("after operation %zu: ", i + 1) + F.back().err);
		}
		if (i < c.ops.size() && c.ops[i].k == O_SELCOPY) t += fmt("selection %d ", R.last_sel_ret) + esc_bytes(R.last_sel);
		if (i < c.ops.size() && (c.ops[i].k == O_KEY || c.ops[i].k == O_MOUSE)) t += fmt("handled %d ", R.last_ret);
		if (!R.out.empty()) { t += "output " + esc_bytes(R.out); R.out.clear(); }
		for (auto &o : R.osc) t += "osc " + esc_bytes(o);
		R.osc.clear();
		for (auto &m : R.mouse) t += fmt("mouse %u %d", m.event, m.pixel);
		R.mouse.clear();
		unsigned n[] = { tsm_screen_get_cursor_x(R.s), tsm_screen_get_cursor_y(R.s), tsm_screen_get_flags(R.s), (unsigned)tsm_screen_sb_get_line_count(R.s), (unsigned)tsm_screen_sb_get_line_pos(R.s),
				 R.v ? tsm_vte_get_flags(R.v) : 0, R.v ? (unsigned)tsm_vte_get_mouse_mode(R.v) : 0, R.v ? (unsigned)tsm_vte_get_mouse_event(R.v) : 0 };
		for (auto &x : n) { defined(&x, sizeof x, R.err, "result of a query"); t += fmt(" %u", x); }
		if (R.v) {
			struct tsm_screen_attr x;
			memset(&x, 0, sizeof x);
			tsm_vte_get_def_attr(R.v, &x);
			t += attr_str(from_tsm(&x));
		}
		if (!R.err.empty()) r.fail("uninit", fmt("after operation %zu: ", i + 1) + R.err);
		T.push_back(t);
	}
	r.state = state_of(R);
	g_mon.fill = -1;
}
static void eval39(const Case &c, Result &r)
{
	std::vector<std::string> T[2];
	std::vector<Frame> F[2];
	if (RUNNING_ON_VALGRIND) { transcript(c, -1, T[0], F[0], r); r.evals = T[0].size() + F[0].size(); r.n["operations_under_memcheck"] += c.ops.size(); for (auto &f : F[0]) r.n["cells_checked"] += f.c.size(); return; }
	transcript(c, 0xa5, T[0], F[0], r);
	transcript(c, 0x5a, T[1], F[1], r);
	for (size_t i = 0; i < T[0].size(); i++) {
		r.evals++;
		if (T[0][i] != T[1][i]) { r.fail("uninit", fmt("operation %zu gives different results, depending on what uninitialised memory contains: ", i + 1) + T[0][i].substr(0, 300) + " / " + T[1][i].substr(0, 300)); return; }
	}
	for (size_t i = 0; i < F[0].size(); i++) {
		r.evals++;
		std::string e = frame_diff(F[0][i], F[1][i], true);
		if (!e.empty()) { r.fail("uninit", fmt("drawing %zu depends on what uninitialised memory contains: ", i + 1) + e); return; }
	}
	r.n["frames_compared"] += F[0].size(); r.n["operations"] += c.ops.size();
}

extern const CheckDef term_checks[];
const CheckDef term_checks[] = {
	{ "C01", 5000, 260000, gen01, eval01 },
	{ "C02", 8000, 500000, gen02, eval02 },
	{ "C03", 20000, 1500000, gen03, eval03 },
	{ "C04", 14000, 200000, gen04, eval04 },
	{ "C05", 90000, 2000000, gen05, eval05 },
	{ "C18", 14000, 90000, gen18, eval18 },
	{ "C24", 90000, 2500000, gen24, eval24 },
	{ "C35", 120000, 2500000, gen35, eval35 },
	{ "C36", 30000, 1200000, gen36, eval36 },
	{ "C39", 3000, 120000, gen39, eval39 },
	{ "C40", 150000, 3500000, gen40, eval40 },
	{ "C41", 150000, 3500000, gen41, eval41 },
	{ nullptr, 0, 0, nullptr, nullptr }
};

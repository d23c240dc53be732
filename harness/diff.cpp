/* Model-differential monitors: the library and the reference model execute the
 * same history; after every operation the observable state is compared. */
#include "check.hpp"
#include <cstdarg>
#include <cerrno>
#include <algorithm>
using namespace model;

std::string contract(const Frame &f)
{
	if (!f.err.empty()) return f.err;
	if (f.calls != f.c.size()) return fmt("%llu cells drawn on a %ux%u screen", (unsigned long long)f.calls, f.w, f.h);
	for (size_t i = 0; i < f.hits.size(); i++) if (f.hits[i] != 1) return fmt("cell (%zu,%zu) drawn %d times", i % f.w, i / f.w, f.hits[i]);
	return "";
}

std::string cmp_frame(const Frame &f, const std::vector<DCell> &d, bool cells, bool attrs)
{
	std::string e = contract(f);
	if (!e.empty()) return e;
	if (f.c.size() != d.size()) return fmt("screen has %zu cells, expected %zu", f.c.size(), d.size());
	for (size_t i = 0; i < d.size(); i++) {
		unsigned x = i % f.w, y = i / f.w;
		if (cells && f.c[i].w != d[i].w) return fmt("cell (%u,%u): width %u, expected %u", x, y, f.c[i].w, d[i].w);
		if (cells && d[i].text_known && f.c[i].ch != d[i].ch) return fmt("cell (%u,%u): shows U+%04x, expected U+%04x", x, y, f.c[i].ch, d[i].ch);
		if (attrs && d[i].attr_known && f.c[i].a != d[i].a) return fmt("cell (%u,%u): attributes %s, expected %s", x, y, attr_str(f.c[i].a).c_str(), attr_str(d[i].a).c_str());
	}
	return "";
}

uint64_t frame_hash(const Frame &f, bool ages)
{
	uint64_t h = f.w * 1000003ull + f.h;
	for (size_t i = 0; i < f.c.size(); i++) {
		const DCell &c = f.c[i];
		uint32_t v[4] = { c.ch, c.w, uint32_t(c.a.fc & 255) | (c.a.bc & 255) << 8 | c.a.fr << 16 | uint32_t(c.a.br) << 24,
			uint32_t(c.a.bold | c.a.italic << 1 | c.a.underline << 2 | c.a.inverse << 3 | c.a.protect << 4 | c.a.blink << 5) };
		h = hash_bytes(v, sizeof v, h);
		if (ages) h = hash_bytes(&f.age[i], sizeof f.age[i], h);
	}
	return h;
}

std::string frame_diff(const Frame &a, const Frame &b, bool ages)
{
	if (a.w != b.w || a.h != b.h) return "screens of different size";
	for (size_t i = 0; i < a.c.size(); i++) {
		unsigned x = i % a.w, y = i / a.w;
		const DCell &p = a.c[i], &q = b.c[i];
		if (p.w != q.w) return fmt("cell (%u,%u): width %u / %u", x, y, p.w, q.w);
		if (p.ch != q.ch) return fmt("cell (%u,%u): U+%04x / U+%04x", x, y, p.ch, q.ch);
		if (p.a != q.a) return fmt("cell (%u,%u): %s / %s", x, y, attr_str(p.a).c_str(), attr_str(q.a).c_str());
		if (ages && a.age[i] != b.age[i]) return fmt("cell (%u,%u): age %llu / %llu", x, y, (unsigned long long)a.age[i], (unsigned long long)b.age[i]);
	}
	return "";
}

/* tracks everything the comparison needs between two operations */
struct Diff {
	const Profile &P;
	bool vte;
	Real R;
	Mod M;
	Result &res;
	size_t osc_i = 0, mouse_i = 0, heard = 0, cb_i = 0;
	bool told = true;
	uint64_t scroll0 = 0, wrap0 = 0;
	Diff(const Profile &p, bool v, Result &r) : P(p), vte(v), R(v), M(v), res(r) {}
	std::string step(const Op &o, bool draw, bool last)
	{
		unsigned copies = R.sel_copies;	/* a copy may be set aside for a callback */
		R.apply(o);
		copies = R.sel_copies - copies;
		M.apply(o);
		unsigned m = P.mask;
		if (!R.err.empty()) return R.err;
		Screen &s = M.s;
		for (; cb_i < R.incb.size() || cb_i < M.incb.size(); cb_i++) {
			static const char *names[] = { "OSC", "mouse", "write" };
			if (cb_i >= M.incb.size()) return fmt("%s callback that was not expected", names[R.incb[cb_i].cb]);
			const InCb &b = M.incb[cb_i];
			if (cb_i >= R.incb.size()) return fmt("no %s callback, in which the application would have called ", names[b.cb]) + op_str(b.o);
			const InCb &a = R.incb[cb_i];
			std::string in = fmt("in the %s callback, around ", names[b.cb]) + op_str(b.o) + ": ";
			if (a.cb != b.cb) return fmt("%s callback instead of the %s callback", names[a.cb], names[b.cb]);
			res.evals++; res.n["calls_in_callbacks"]++; res.n[std::string("calls_in_callback_") + names[b.cb]]++;
			if (a.seen != b.seen) return in + a.seen + ", expected " + b.seen;
			if (!b.vague && a.txt != b.txt && a.txt != b.alt) return in + "copied " + esc_bytes(a.txt) + ", expected " + esc_bytes(b.txt);
			if (a.cells.size() != b.cells.size()) return in + "cells missing";
			for (size_t i = 0; i < a.cells.size(); i++) {
				if (a.cells[i].w != b.cells[i].w || (b.cells[i].text_known && a.cells[i].ch != b.cells[i].ch)) return in + fmt("cell %zu shows U+%04x, expected U+%04x", i, a.cells[i].ch, b.cells[i].ch);
				if (!b.vague && b.cells[i].attr_known && a.cells[i].a != b.cells[i].a) return in + fmt("cell %zu: ", i) + attr_str(a.cells[i].a) + ", expected " + attr_str(b.cells[i].a);
			}
		}
		if (m & M_CUR) {
			unsigned x = tsm_screen_get_cursor_x(R.s), y = tsm_screen_get_cursor_y(R.s);
			res.evals++;
			if (x != s.cx || y != s.cy) return fmt("cursor at (%u,%u), expected (%u,%u)", x, y, s.cx, s.cy);
		}
		if (m & M_SIZE) {
			unsigned x = tsm_screen_get_width(R.s), y = tsm_screen_get_height(R.s);
			if (x != s.w || y != s.h) return fmt("size %ux%u, expected %ux%u", x, y, s.w, s.h);
		}
		if (m & M_SB) {
			unsigned c = tsm_screen_sb_get_line_count(R.s), p = tsm_screen_sb_get_line_pos(R.s);
			res.evals++;
			if (c != s.sb_count()) return fmt("%u lines of scroll-back, expected %u", c, s.sb_count());
			if (p != s.sb_pos()) return fmt("scroll-back position %u, expected %u", p, s.sb_pos());
		}
		if (m & M_SFL) {
			unsigned f = tsm_screen_get_flags(R.s);
			if (f != s.flags) return fmt("screen flags %#x, expected %#x", f, s.flags);
		}
		if (vte) {
			Vte &v = *M.v;
			if (m & M_VFL) {
				unsigned f = tsm_vte_get_flags(R.v);
				if (f != v.flags) return fmt("terminal flags %#x, expected %#x", f, v.flags);
			}
			if (m & M_OUT) {
				res.evals++;
				if (R.out != v.out) return "wrote \"" + esc_bytes(R.out) + "\", expected \"" + esc_bytes(v.out) + "\"";
				res.n["bytes_to_client"] += R.out.size();
				R.out.clear(); v.out.clear();
			}
			if (m & M_OSC) {
				if (R.osc.size() != v.osc.size()) return fmt("%zu OSC strings delivered, expected %zu", R.osc.size(), v.osc.size());
				for (; osc_i < R.osc.size(); osc_i++) {
					res.evals++; res.n["osc_strings"]++;
					if (R.osc[osc_i] != v.osc[osc_i]) return "OSC string \"" + esc_bytes(R.osc[osc_i]) + "\", expected \"" + esc_bytes(v.osc[osc_i]) + "\"";
				}
			}
			if (m & M_MCB) {
				if (R.mouse.size() != v.mouse.size()) return fmt("%zu mouse tracking notices, expected %zu", R.mouse.size(), v.mouse.size());
				for (; mouse_i < R.mouse.size(); mouse_i++) {
					res.n["mouse_notices"]++;
					if (R.mouse[mouse_i].event != v.mouse[mouse_i].event || R.mouse[mouse_i].pixel != v.mouse[mouse_i].pixel)
						return fmt("mouse notice (%u,%d), expected (%u,%d)", R.mouse[mouse_i].event, R.mouse[mouse_i].pixel, v.mouse[mouse_i].event, v.mouse[mouse_i].pixel);
				}
			}
			if (m & M_MGET) {
				unsigned a = tsm_vte_get_mouse_mode(R.v), b = tsm_vte_get_mouse_event(R.v);
				if (a != v.mmode || b != v.mevent) return fmt("mouse mode/event %u/%u, expected %u/%u", a, b, v.mmode, v.mevent);
			}
			if (!v.have_mouse) told = false;	/* nobody was listening; the next notice brings the application up to date */
			else if (R.mouse.size() != heard) told = true;
			heard = R.mouse.size();
			if ((m & M_CB) && told) {
				unsigned ev = R.mouse.empty() ? 0 : R.mouse.back().event; bool px = !R.mouse.empty() && R.mouse.back().pixel;
				unsigned want = v.mmode && v.mevent ? v.mevent : 0;
				if (ev != want) return fmt("the application was last told to track %u, effective is %u", ev, want);
				if (ev && px != (v.mmode == 1016)) return fmt("the application was last told pixels=%d, mode is %u", px, v.mmode);
			}
			if ((m & M_RET) && (o.k == O_KEY || o.k == O_MOUSE)) {
				res.evals++;
				if (R.last_ret != M.last_ret) return fmt("%s returned %d, expected %d", op_name(o.k), R.last_ret, M.last_ret);
			}
			if (m & M_DEFA) {
				struct tsm_screen_attr t;
				memset(&t, 0, sizeof t);
				tsm_vte_get_def_attr(R.v, &t);
				if (from_tsm(&t) != v.def) return "default attribute " + attr_str(from_tsm(&t)) + ", expected " + attr_str(v.def);
			}
		}
		bool vague = s.sel && (s.sel_vague || !(m & M_SEL));
		if ((m & M_SEL) && o.k == O_SELCOPY && copies && !vague) {
			res.evals++; res.n["selections_copied"]++;
			bool none = M.sel_ret == -2;
			if (none != (R.last_sel_ret < 0)) return fmt("selection copy returned %d, expected %s", R.last_sel_ret, none ? "an error" : "text");
			if (none && R.last_sel_ret != -ENOENT) return fmt("copy without a selection returned %d, expected -ENOENT", R.last_sel_ret);
			if (!none && R.last_sel != M.sel_txt && R.last_sel != M.sel_alt)
				return "selection \"" + esc_bytes(R.last_sel) + "\", expected \"" + esc_bytes(M.sel_txt) + "\"";
			if (!none && M.sel_txt.find('\n') != std::string::npos) res.n["multi_line_selections"]++;
		}
		if (draw && (m & (M_CELL | M_ATTR))) {
			Frame f = R.draw();
			res.evals++; res.n["frames_compared"]++; res.n["cells_compared"] += f.c.size();
			std::string e = cmp_frame(f, s.draw(), m & M_CELL, (m & M_ATTR) && !vague);
			if (!e.empty()) return e;
			if (last) res.state = frame_hash(f);
		}
		return "";
	}
};

/* Other spellings of a control sequence: superfluous parameters, leading zeros,
 * the 8-bit introducer, ignored bytes and arbitrary splits of the input. */
static void respell(Rng &r, Op &o, std::vector<Op> &tail)
{
	if (o.k != O_IN || o.s.size() < 3 || o.s[0] != '\x1b' || o.s[1] != '[') return;
	size_t e = 2;
	while (e < o.s.size() && (unsigned char)o.s[e] >= 0x20 && (unsigned char)o.s[e] < 0x40) e++;
	if (e >= o.s.size() || (unsigned char)o.s[e] < 0x40 || (unsigned char)o.s[e] > 0x7e) return;
	char f = o.s[e];
	size_t d = e;		/* intermediates stand between parameters and final */
	while (d > 2 && (unsigned char)o.s[d - 1] < 0x30) d--;
	switch (r.w({ 10, 3, 3, 3, 3 })) {
	case 0: {
		if (f == 'm' || f == 'h' || f == 'l') return;
		static const int pos2[] = { 'H', 'f', 'r' };
		bool two = false;
		for (int c : pos2) two |= f == c;
		std::string par = o.s.substr(2, d - 2), x;
		size_t have = std::count(par.begin(), par.end(), ';') + 1;
		for (size_t i = have; two && i < 2; i++) x += ";";
		int n = r.p(0.15) ? r.range(12, 20) : r.range(1, 2);
		while (n--) { x += ";"; if (r.p(0.8)) x += std::to_string(r.below(12)); }
		o.s.insert(d, x);
		break;
	}
	case 1: { size_t i = 2; while (i < d && (o.s[i] < '0' || o.s[i] > '9')) i++; if (i < d) o.s.insert(i, std::string(r.range(1, 7), '0')); break; }
	case 2: o.s.replace(0, 2, "\xc2\x9b"); break;
	case 3: o.s.insert(r.range(2, e), 1, r.p(0.5) ? '\x7f' : '\0'); break;
	default: { size_t k = r.range(1, o.s.size() - 1); tail.push_back(IN(o.s.substr(k))); o.s.resize(k); break; }
	}
}

void diff_gen(const char *prop, uint64_t seed, uint64_t index, Case &c)
{
	const Profile &P = *find_profile(prop);
	Gen g(mix(mix(seed, hash_str(prop)), index));
	bool vte = P.vte == 2 || (P.vte == 1 && g.r.p(0.7));
	g.vte = vte;
	Mod M(vte);
	g.s = &M.s;
	c.p = { vte, (int64_t)(g.r.next() >> 1) };
	if (strcmp(prop, "C46")) for (Op &o : no_callbacks(g)) { M.apply(o); c.ops.push_back(o); }
	P.setup(g);
	int n = g.r.range(P.min_ops, P.max_ops);
	/* operations of the whole interface in between bring the state into arrangements
	 * that the property's own operations never would; a difference that is first seen
	 * after one of them is not this property's */
	bool alone = P.next == next_mix || !strcmp(prop, "C46") || !strcmp(prop, "C47") || (P.mask & M_SEL);
	double foreign = alone || !g.r.p(0.3) ? 0 : g.r.p(0.5) ? 0.1 : 0.3;
	bool sels = !alone && g.r.p(0.12);	/* what is selected makes no difference */
	bool pf = false, bursts = g.r.p(0.1) && !(P.mask & M_SEL && g.serial);
	while (!g.pend.empty() || n-- > 0) {
		bool pending = !g.pend.empty();
		if (!pending) { pf = g.r.p(foreign); g.wide_ok = true; }
		bool sel = sels && !pending && g.r.p(0.1);
		pf |= sel;
		auto at = [&](unsigned n) { return int64_t(g.r.below(n + 1)); };
		Op o = pending ? g.pop() : sel ? g.r.p(0.1) ? Op(O_SELRST) : Op(g.r.p(0.4) ? O_SELST : O_SELTGT, { at(M.s.w), at(M.s.h) }) : pf ? next_mix(g) : P.next(g);
		o.foreign = pf;
		std::vector<Op> tail;
		if (vte && g.r.p(0.05)) respell(g.r, o, tail);
		int again = g.pend.empty() && bursts && g.r.p(0.04) ? g.r.p(0.7) ? g.r.range(1, 3) : g.r.p(0.7) ? g.r.range(4, 40) : g.lit(1, 300) : 0;
		if (again > 4 && o.k == O_IN && o.s.size() > 16) again = 4;
		for (int k = 0; k <= again; k++) {
			M.apply(o);
			c.ops.push_back(o);
			for (Op &q : tail) { q.foreign = pf; M.apply(q); c.ops.push_back(q); }
		}
		if (c.ops.size() > 2000) break;
	}
}

void diff_eval(const char *prop, const Case &c, Result &r)
{
	const Profile &P = *find_profile(prop);
	Diff D(P, c.p[0], r);
	Rng dr(c.p.size() > 1 ? c.p[1] : 1);
	uint64_t mods = 0;
	for (size_t i = 0; i < c.ops.size(); i++) {
		const Op &o = c.ops[i];
		size_t area = size_t(D.M.s.w) * D.M.s.h;
		bool draw = i + 1 == c.ops.size() || area <= 160 || dr.p(160.0 / area);
		std::string e = D.step(o, draw, i + 1 == c.ops.size());
		r.n[std::string("op_") + op_name(o.k)]++;
		if (!e.empty() && o.foreign) { r.n["cases_left_to_other_checks"]++; return; }
		r.n["foreign_operations"] += o.foreign;
		if (!e.empty()) { r.fail("diff", fmt("after operation %zu ", i + 1) + op_str(o) + ": " + e); return; }
		mods++;
	}
	r.n["operations"] += mods;
	r.n["lines_scrolled"] += D.M.s.n_scroll; r.n["autowraps"] += D.M.s.n_wrap; r.n["lines_dropped"] += D.M.s.n_dropped;
	if (D.vte) { r.n["chars_printed"] += D.M.v->n_print; r.n["csi"] += D.M.v->n_csi; r.n["esc"] += D.M.v->n_esc; r.n["controls"] += D.M.v->n_exec; }
	uint64_t st[4] = { D.M.s.cx, D.M.s.cy, D.M.s.sb.size(), D.M.s.flags };
	if (!(P.mask & (M_CELL | M_ATTR))) { Frame f = D.R.draw(); r.state = frame_hash(f); }
	r.state = hash_bytes(st, sizeof st, r.state);
	if (D.vte) { unsigned f = D.M.v->flags; r.state = hash_bytes(&f, sizeof f, r.state); }
}

void any_ops(uint64_t seed, int n, bool vte, std::vector<Op> &out, bool big)
{
	Gen g(seed);
	g.vte = vte;
	Mod M(vte);
	g.s = &M.s;
	setup_any(g);
	(void)big;
	while (!g.pend.empty() || n-- > 0) {
		Op o = g.pend.empty() ? gen_any(g) : g.pop();
		M.apply(o);
		out.push_back(o);
		if (out.size() > 3000) break;
	}
}

#define DEF(id) \
	static void g_##id(uint64_t s, uint64_t i, bool, Case &c) { diff_gen(#id, s, i, c); } \
	static void e_##id(const Case &c, Result &r) { diff_eval(#id, c, r); }
DEF(C07) DEF(C08) DEF(C09) DEF(C10) DEF(C11) DEF(C12) DEF(C13) DEF(C14) DEF(C15) DEF(C16) DEF(C17) DEF(C19) DEF(C21) DEF(C22)
DEF(C23) DEF(C25) DEF(C26) DEF(C27) DEF(C28) DEF(C37) DEF(C43) DEF(C46) DEF(C47)
extern const CheckDef diff_checks[];
const CheckDef diff_checks[] = {
#define E(id, q, t) { #id, q, t, g_##id, e_##id }
	E(C07, 360000, 5000000), E(C08, 90000, 2000000), E(C09, 180000, 5000000), E(C10, 72000, 1500000), E(C11, 24000, 500000), E(C12, 60000, 1200000),
	E(C13, 240000, 6000000), E(C14, 108000, 2500000), E(C15, 150000, 4000000), E(C16, 150000, 3500000), E(C17, 180000, 5000000), E(C19, 180000, 5000000),
	E(C21, 180000, 6000000), E(C22, 240000, 6000000), E(C23, 180000, 5000000), E(C25, 180000, 5000000), E(C26, 180000, 5000000), E(C27, 180000, 5000000),
	E(C28, 42000, 800000), E(C37, 180000, 5000000), E(C43, 72000, 800000), E(C46, 120000, 2500000), E(C47, 90000, 1500000),
	{ nullptr, 0, 0, nullptr, nullptr }
};

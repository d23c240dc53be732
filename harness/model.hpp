/* Reference model of the terminal: an independent, deliberately simple
 * re-statement of the documented behaviour, used as oracle by the differential
 * monitors. It shares no code and no data structure with the library. */
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>
#include "width_table.inc"

namespace model {

enum { F_INSERT = 1, F_WRAP = 2, F_ORIGIN = 4, F_INVERSE = 8, F_HIDE = 16, F_FIXED = 32, F_ALT = 64 };

struct Attr {
	int fc = 0, bc = 0;
	int fr = 255, fg = 255, fb = 255, br = 0, bg = 0, bb = 0;
	bool bold = false, italic = false, underline = false, inverse = false, protect = false, blink = false;
	bool operator==(const Attr &o) const
	{
		return fc == o.fc && bc == o.bc && fr == o.fr && fg == o.fg && fb == o.fb && br == o.br &&
		       bg == o.bg && bb == o.bb && bold == o.bold && italic == o.italic &&
		       underline == o.underline && inverse == o.inverse && protect == o.protect && blink == o.blink;
	}
	bool operator!=(const Attr &o) const { return !(*this == o); }
};

struct Cell {
	uint32_t ch = 0;
	unsigned w = 1;
	Attr a;
};

struct DCell {		/* what a renderer is expected to be handed */
	uint32_t ch = 0;	/* 0: nothing to draw */
	unsigned w = 1;
	Attr a;
	bool attr_known = true;
	bool text_known = true;
};

struct Row {
	std::vector<Cell> c;
	uint64_t id = 0;
};

struct Pos { bool top = false; uint64_t id = 0; unsigned x = 0; };

inline unsigned width_of(uint32_t u)
{
	size_t lo = 0, hi = sizeof(width_ranges) / sizeof(width_ranges[0]);
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (u > width_ranges[mid].last) lo = mid + 1; else hi = mid;
	}
	if (lo < sizeof(width_ranges) / sizeof(width_ranges[0]) && u >= width_ranges[lo].first)
		return width_ranges[lo].width;
	return 1;
}

inline std::string utf8(uint32_t g)
{
	std::string s;
	if ((g >= 0xd800 && g <= 0xdfff) || g > 0x10ffff || (g & 0xfffe) == 0xfffe || (g >= 0xfdd0 && g <= 0xfdef))
		return s;
	if (g < 0x80) s += char(g);
	else if (g < 0x800) { s += char(0xc0 | g >> 6); s += char(0x80 | (g & 63)); }
	else if (g < 0x10000) { s += char(0xe0 | g >> 12); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	else { s += char(0xf0 | g >> 18); s += char(0x80 | (g >> 12 & 63)); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	return s;
}

struct Screen {
	unsigned w = 80, h = 24, flags = 0, mt = 0, mb = 23, cx = 0, cy = 0;
	std::vector<Row> mainr, altr;
	std::deque<Row> sb;
	unsigned sbmax = 0;
	long pos = -1;		/* index into sb of the first visible row; -1: bottom */
	std::vector<bool> tab;
	Attr def, def_main;
	bool sel = false;
	bool sel_vague = false;	/* moved in a way that is not specified; until it is started anew */
	Pos ss, se;
	void blur() { if (sel) sel_vague = true; }
	uint64_t next_id = 1;
	/* statistics about states reached, for the evidence */
	uint64_t n_scroll = 0, n_wrap = 0, n_dropped = 0;

	Screen() { mainr = mk(24, 80); altr = mk(24, 80); tabs(); }
	Row blank(unsigned width, const Attr &a) { Row r; r.id = next_id++; r.c.resize(width); for (auto &c : r.c) c.a = a; return r; }
	std::vector<Row> mk(unsigned n, unsigned width) { std::vector<Row> v; for (unsigned i = 0; i < n; i++) v.push_back(blank(width, def)); return v; }
	void tabs() { tab.assign(w, false); for (unsigned i = 0; i < w; i += 8) tab[i] = true; }
	bool alt() const { return flags & F_ALT; }
	std::vector<Row> &rows() { return alt() ? altr : mainr; }
	unsigned vx() const { return cx < w ? cx : w - 1; }	/* visible column */

	/* --- scroll-back --- */
	void dropped(uint64_t id) { n_dropped++; if (sel) { if (!ss.top && ss.id == id) ss = Pos{true, 0, 0}; if (!se.top && se.id == id) se = Pos{true, 0, 0}; } }
	void push(const Row &r)
	{
		if (!sbmax) { dropped(r.id); return; }
		if (sb.size() >= sbmax) {
			dropped(sb.front().id);
			sb.pop_front();
			if (pos > 0 && (flags & F_FIXED)) pos--;
		}
		sb.push_back(r);
	}
	void set_max(unsigned m)
	{
		while (sb.size() > m) {
			dropped(sb.front().id);
			sb.pop_front();
			if (pos > 0) pos--;
			else if (pos == 0 && sb.empty()) pos = -1;
		}
		sbmax = m;
	}
	void clear_sb() { for (auto &r : sb) dropped(r.id); sb.clear(); pos = -1; }
	void sb_up(uint64_t n) { if (!n || sb.empty()) return; uint64_t cur = pos < 0 ? sb.size() : pos; pos = n > cur ? 0 : long(cur - n); }
	void sb_down(uint64_t n) { if (!n || pos < 0) return; uint64_t p = uint64_t(pos) + n; pos = p >= sb.size() ? -1 : long(p); }
	void sb_reset() { pos = -1; }
	unsigned sb_count() const { return sb.size(); }
	unsigned sb_pos() const { return pos < 0 ? sb.size() : pos; }

	/* --- scrolling --- */
	void scroll_up(unsigned n)
	{
		if (n && (alt() || mt || mb + 1 < h)) blur();
		auto &r = rows();
		n = std::min(n, mb - mt + 1);
		for (; n; n--) {
			n_scroll++;
			Row top = r[mt];
			r.erase(r.begin() + mt);
			if (!alt()) push(top);
			r.insert(r.begin() + mb, blank(w, def));
		}
	}
	void scroll_down(unsigned n)
	{
		if (n && (alt() || mt || mb + 1 < h)) blur();
		auto &r = rows();
		n = std::min(n, mb - mt + 1);
		for (; n; n--) {
			n_scroll++;
			uint64_t gone = r[mb].id;
			r.erase(r.begin() + mb);
			r.insert(r.begin() + mt, blank(w, def));
			if (sel) {
				if (!ss.top && ss.id == gone) { ss.id = r[mb].id; ss.x = w - 1; }
				if (!se.top && se.id == gone) { se.id = r[mb].id; se.x = w - 1; }
			}
		}
	}

	/* --- resize --- */
	void resize(unsigned nw, unsigned nh)
	{
		if (!nw || !nh || (nw == w && nh == h)) return;
		if (alt() && nh != h) blur();
		Attr ma = alt() ? def_main : def;
		auto fit = [&](std::vector<Row> &v, const Attr &a) {
			for (auto &r : v) { unsigned o = r.c.size(); r.c.resize(nw); for (unsigned i = o; i < nw; i++) { r.c[i] = Cell(); r.c[i].a = a; } }
		};
		fit(mainr, ma);
		fit(altr, def);
		w = nw;
		tabs();
		mt = 0; mb = h - 1;
		if (cx >= w) cx = w - 1;
		if (nh < h) {
			unsigned d = h - nh;
			scroll_up(d);
			cy = cy > d ? cy - d : 0;
		}
		auto fith = [&](std::vector<Row> &v, const Attr &a) {
			while (v.size() > nh) v.pop_back();
			while (v.size() < nh) v.push_back(blank(w, a));
		};
		fith(mainr, ma);
		fith(altr, def);
		h = nh;
		mb = h - 1;
		if (cy >= h) cy = h - 1;
		if (sel) { if (ss.x >= w) ss.x = w - 1; if (se.x >= w) se.x = w - 1; }
	}
	void margins(unsigned t, unsigned b) { if (!t) t = 1; if (b <= t || b > h) { mt = 0; mb = h - 1; } else { mt = t - 1; mb = b - 1; } }

	/* --- flags --- */
	void set(unsigned f) { if (!alt() && (f & F_ALT)) { def_main = def; blur(); } flags |= f; }
	void clr(unsigned f) { if (alt() && (f & F_ALT)) blur(); flags &= ~f; }
	void reset() { if (alt()) blur(); flags = 0; mt = 0; mb = h - 1; tabs(); }

	/* --- printing --- */
	void write(uint32_t ch, const Attr &a)
	{
		unsigned len = width_of(ch);
		if (!len) return;
		if (len > w) len = w;
		bool in_region = cy <= mb;
		if (cx + len > w) {
			if (flags & F_WRAP) { n_wrap++; cx = 0; linefeed_wrap(in_region); }
			else cx = w - len;
		}
		auto &c = rows()[cy].c;
		if ((flags & F_INSERT) && cx + len < w)
			for (unsigned i = w; i-- > cx + len; ) c[i] = c[i - len];
		c[cx].ch = ch; c[cx].w = len; c[cx].a = a;
		for (unsigned i = 1; i < len; i++) { c[cx + i].w = 0; c[cx + i].a = a; }
		cx += len;
	}
	void linefeed_wrap(bool in_region)
	{
		if (in_region && cy == mb) scroll_up(1);
		else if (cy + 1 < h) cy++;
	}

	/* --- cursor --- */
	void move_to(uint64_t x, uint64_t y)
	{
		uint64_t last = h - 1;
		y &= 0xffffffff; x &= 0xffffffff;
		if (flags & F_ORIGIN) { y = (y + mt) & 0xffffffff; last = mb; }
		cx = std::min<uint64_t>(x, w - 1);
		cy = std::min<uint64_t>(y, last);
	}
	void up(unsigned n, bool scroll)
	{
		for (; n; n--) {
			if (cy == mt) { if (scroll) { scroll_up_limit(n, true); } return; }
			if (cy == 0) return;
			cy--;
		}
	}
	void down(unsigned n, bool scroll)
	{
		for (; n; n--) {
			if (cy == mb) { if (scroll) scroll_up_limit(n, false); return; }
			if (cy + 1 >= h) return;
			cy++;
		}
	}
	void scroll_up_limit(unsigned n, bool rev) { if (rev) scroll_down(n); else scroll_up(n); }
	void left(unsigned n) { if (!n) return; unsigned x = vx(); cx = n > x ? 0 : x - n; }
	void right(unsigned n) { if (!n) return; cx = std::min<uint64_t>(uint64_t(cx) + n, w - 1); }
	void line_end() { cx = w - 1; }
	void home() { cx = 0; }
	void newline() { down(1, true); cx = 0; }

	/* --- tabs --- */
	void tab_set() { if (cx < w) tab[cx] = true; }
	void tab_clr() { if (cx < w) tab[cx] = false; }
	void tab_clr_all() { tab.assign(w, false); }
	void tab_right(unsigned n)
	{
		if (!n) return;
		unsigned x = cx;
		while (n-- && x + 1 < w) { do x++; while (x + 1 < w && !tab[x]); }
		cx = std::min(x, w - 1);
	}
	void tab_left(unsigned n)
	{
		if (!n) return;
		unsigned x = cx;
		while (n-- && x) { do x--; while (x && !tab[x]); }
		cx = x;
	}

	/* --- insert / delete --- */
	bool in_margins() const { return cy >= mt && cy <= mb; }
	void ins_lines(unsigned n)
	{
		if (!n || !in_margins()) return;
		blur();
		auto &r = rows();
		n = std::min(n, mb - cy + 1);
		while (n--) { r.erase(r.begin() + mb); r.insert(r.begin() + cy, blank(w, def)); }
		cx = 0;
	}
	void del_lines(unsigned n)
	{
		if (!n || !in_margins()) return;
		blur();
		auto &r = rows();
		n = std::min(n, mb - cy + 1);
		while (n--) { r.erase(r.begin() + cy); r.insert(r.begin() + mb, blank(w, def)); }
		cx = 0;
	}
	Cell bcell() { Cell c; c.a = def; return c; }
	void ins_chars(unsigned n)
	{
		if (!n) return;
		cx = vx();
		n = std::min(n, w - cx);
		auto &c = rows()[cy].c;
		while (n--) { c.pop_back(); c.insert(c.begin() + cx, bcell()); }
	}
	void del_chars(unsigned n)
	{
		if (!n) return;
		cx = vx();
		n = std::min(n, w - cx);
		auto &c = rows()[cy].c;
		while (n--) { c.erase(c.begin() + cx); c.push_back(bcell()); }
	}

	/* --- erase --- */
	void erase(uint64_t from, uint64_t to, bool prot)	/* inclusive cell indices, row-major */
	{
		for (uint64_t i = from; i <= to; i++) {
			Cell &c = rows()[i / w].c[i % w];
			if (prot && c.a.protect) continue;
			c = bcell();
		}
	}
	uint64_t here() const { return uint64_t(cy) * w + vx(); }
	uint64_t bol() const { return uint64_t(cy) * w; }
	uint64_t eol() const { return bol() + w - 1; }
	void erase_cursor() { erase(here(), here(), false); }
	void erase_chars(unsigned n) { if (n) erase(here(), here() + std::min(n, w - vx()) - 1, false); }
	void erase_to_end(bool p) { erase(here(), eol(), p); }
	void erase_home(bool p) { erase(bol(), here(), p); }
	void erase_line(bool p) { erase(bol(), eol(), p); }
	void erase_above(bool p) { erase(0, here(), p); }
	void erase_below(bool p) { erase(here(), uint64_t(h) * w - 1, p); }
	void erase_all(bool p) { erase(0, uint64_t(h) * w - 1, p); }

	/* --- view, selection --- */
	const Row &visible(unsigned y, bool &is_screen, unsigned &sy)
	{
		unsigned nsb = pos < 0 ? 0 : sb.size() - pos;
		if (y < nsb) { is_screen = false; return sb[pos + y]; }
		is_screen = true; sy = y - nsb;
		return rows()[sy];
	}
	void sel_pos(Pos &p, unsigned x, unsigned y)
	{
		x = std::min(x, w - 1); y = std::min(y, h - 1);
		bool s; unsigned sy;
		p.top = false; p.id = visible(y, s, sy).id; p.x = x;
	}
	void sel_start(unsigned x, unsigned y) { sel = true; sel_vague = false; sel_pos(ss, x, y); se = ss; }
	void sel_target(unsigned x, unsigned y) { if (sel) sel_pos(se, x, y); }
	/* document coordinate of a position; -1 for "before everything" */
	long doc_row(const Pos &p)
	{
		if (p.top) return -1;
		for (size_t i = 0; i < sb.size(); i++) if (sb[i].id == p.id) return i;
		auto &r = rows();
		for (size_t i = 0; i < r.size(); i++) if (r[i].id == p.id) return sb.size() + i;
		return -2;
	}
	bool sel_range(long &r0, unsigned &x0, long &r1, unsigned &x1)
	{
		if (!sel || (ss.top && se.top)) return false;
		r0 = doc_row(ss); x0 = ss.top ? 0 : ss.x; r1 = doc_row(se); x1 = se.top ? 0 : se.x;
		if (r0 == -2 || r1 == -2) return false;
		if (r0 > r1 || (r0 == r1 && x0 > x1)) { std::swap(r0, r1); std::swap(x0, x1); }
		return true;
	}
	/* expected text; optional_first tells whether a leading newline may be missing */
	int sel_copy(std::string &out, std::string &alt_out)
	{
		out.clear(); alt_out.clear();
		if (!sel) return -2;
		long r0, r1; unsigned x0, x1;
		if (!sel_range(r0, x0, r1, x1)) return 0;
		if (r0 < 0) { r0 = 0; x0 = 0; }
		bool first_past = false;
		for (long r = r0; r <= r1; r++) {
			const Row &row = r < long(sb.size()) ? sb[r] : rows()[r - sb.size()];
			unsigned a = r == r0 ? x0 : 0, b = r == r1 ? x1 + 1 : w, len = 0;
			for (unsigned i = 0; i < row.c.size() && i < w; i++) if (row.c[i].ch) len = i + 1;
			if (r == r0 && a > len) first_past = true;
			for (unsigned i = a; i < b && i < len; i++) {
				if (!row.c[i].w) continue;
				out += row.c[i].ch ? utf8(row.c[i].ch) : " ";
			}
			if (r != r1) out += '\n';
		}
		alt_out = out;
		if (first_past && !out.empty() && out[0] == '\n') alt_out = out.substr(1);
		return 0;
	}
	std::vector<DCell> draw()
	{
		std::vector<DCell> d(size_t(w) * h);
		long r0 = 0, r1 = 0; unsigned x0 = 0, x1 = 0;
		bool hl = sel_range(r0, x0, r1, x1);
		long base = pos < 0 ? long(sb.size()) : pos;
		for (unsigned y = 0; y < h; y++) {
			bool scr; unsigned sy = 0;
			const Row &r = visible(y, scr, sy);
			for (unsigned x = 0; x < w; x++) {
				DCell &o = d[size_t(y) * w + x];
				if (x < r.c.size()) {
					const Cell &c = r.c[x];
					o.w = c.w; o.a = c.a;
					o.ch = (c.ch == ' ' && !c.a.underline) ? 0 : c.ch;
					if (!c.w) { o.text_known = false; o.attr_known = x && r.c[x - 1].w == 2; }	/* the second cell of a wide character looks like the first */
				} else { o.attr_known = false; }
				bool inv = o.a.inverse;
				if (scr && sy == cy && x == vx() && !(flags & F_HIDE)) inv = !inv;
				if (flags & F_INVERSE) inv = !inv;
				if (hl) {
					long row = base + y;
					bool in = (row > r0 || (row == r0 && x >= x0)) && (row < r1 || (row == r1 && x <= x1));
					if (in) inv = !inv;
				}
				o.a.inverse = inv;
			}
		}
		return d;
	}
};

/* ---------------------------------------------------------------------- */

enum { V_CURSOR_KEY = 1, V_KEYPAD = 2, V_LNM = 4, V_8BIT = 8, V_7BIT = 16, V_C1 = 32, V_KAM = 64, V_IRM = 128,
       V_SRM = 256, V_TEXTCUR = 512, V_INV = 1024, V_ORIGIN = 2048, V_WRAP = 4096, V_REPEAT = 8192,
       V_NATIONAL = 16384, V_BCE = 32768, V_PREPEND = 65536 };

extern const uint8_t palettes[8][18][3];
extern const char *palette_names[8];

struct MouseEv { unsigned event; bool pixel; };

inline uint32_t charset(int set, unsigned i)	/* i: 0..95; what the set shows for that position */
{
	static const uint16_t special[31] = { 9830, 9618, 9225, 9228, 9229, 9226, 176, 177, 9252, 9227, 9496, 9488,
		9484, 9492, 9532, 9146, 9147, 9472, 9148, 9149, 9500, 9508, 9524, 9516, 9474, 8804, 8805, 960,
		8800, 163, 8901 };
	if (i == 0 || i == 95) return 0;
	switch (set) {
	case 0: return 32 + i;			/* ASCII */
	case 1: return 160 + i;			/* Latin-1 */
	case 2: {				/* DEC supplemental */
		switch (i) {
		case 8: return 164; case 55: return 338; case 61: return 376; case 87: return 339; case 93: return 255;
		case 4: case 6: case 12: case 13: case 14: case 15: case 20: case 24: case 30: case 48: case 62:
		case 80: case 94: return 0;
		}
		return 160 + i;
	}
	default:				/* DEC special graphics */
		if (i == 63) return 0;
		if (i >= 64) return special[i - 64];
		return 32 + i;
	}
}

struct Vte {
	Screen &s;
	std::string out;			/* bytes sent to the client */
	std::vector<std::string> osc;
	std::vector<MouseEv> mouse;
	unsigned flags = 0, mmode = 0, mevent = 0, mlx = 0, mly = 0;
	bool bs_del = false, have_osc = true, have_mouse = true;
	int pal = 0;
	uint8_t custom[18][3];
	bool has_custom = false, custom_sel = false;
	Attr def, cur;
	int g[4]; int gl, gr, glt;
	struct { unsigned x, y; Attr a; int gl, gr; bool wrap, origin; } sv;
	unsigned ax = 0, ay = 0;
	int depth = 0;				/* inside of input() */
	uint64_t n_print = 0, n_exec = 0, n_csi = 0, n_esc = 0, n_osc = 0;

	/* parser */
	enum St { GROUND, ESC, ESC_INT, CSI_ENTRY, CSI_PARAM, CSI_INT, CSI_IGN, DCS, OSC, IGN } st = GROUND;
	std::string inter;			/* collected private markers and intermediates ('\x01' = other) */
	std::function<void(int)> hook = [](int) {};	/* what the application does in its callbacks */
	int arg[16]; int argc = 0;
	std::string oscbuf;
	/* utf-8 */
	int need = 0; uint32_t acc = 0, lo = 0, hi = 0;

	explicit Vte(Screen &scr) : s(scr)
	{
		std::memset(custom, 0, sizeof custom);
		def.fc = 16; def.bc = 17; rgb(def);
		clear(); oscbuf.clear();
		reset(); s.erase_all(false);
	}
	const uint8_t (*pt() const)[3] { return custom_sel ? custom : palettes[pal]; }
	void rgb(Attr &a)
	{
		if (a.fc >= 0) {
			int c = a.fc; if (a.bold && c < 8) c += 8; if (c >= 18) c = 16;
			a.fr = pt()[c][0]; a.fg = pt()[c][1]; a.fb = pt()[c][2];
		}
		if (a.bc >= 0) { int c = a.bc; if (c >= 18) c = 17; a.br = pt()[c][0]; a.bg = pt()[c][1]; a.bb = pt()[c][2]; }
	}
	void fcol(Attr &d, const Attr &o) { d.fc = o.fc; d.fr = o.fr; d.fg = o.fg; d.fb = o.fb; }
	void bcol(Attr &d, const Attr &o) { d.bc = o.bc; d.br = o.br; d.bg = o.bg; d.bb = o.bb; }
	std::string palname; bool palname_set = false;
	void repal()
	{
		pal = 0; custom_sel = false;
		if (palname_set) {
			if (palname == "custom" && has_custom) custom_sel = true;
			for (int i = 0; i < 8; i++) if (palname == palette_names[i]) pal = i;
		}
		def.fc = 16; def.bc = 17; rgb(def);
		cur = def; s.def = def; s.erase_all(false);
	}
	void set_palette(const char *n) { palname_set = n; palname = n ? n : ""; repal(); }
	void set_custom(const uint8_t (*p)[3]) { has_custom = p; if (p) std::memcpy(custom, p, sizeof custom); repal(); }

	void reset()
	{
		flags = V_TEXTCUR | V_REPEAT | V_SRM | V_WRAP | V_BCE;
		s.reset(); s.set(F_WRAP);
		need = 0; st = GROUND;
		gl = 0; gr = 1; glt = -1;
		g[0] = 0; g[1] = 1; g[2] = 0; g[3] = 1;
		bool tr = mmode && mevent;
		mmode = mevent = mlx = mly = 0;
		if (tr) cb(0, false);
		cur = def; s.def = def;
		sv = { 0, 0, def, 0, 1, true, false };
		ax = ay = 0;
	}
	void hard_reset()
	{
		reset(); s.erase_all(false);
		s.set(F_ALT); s.erase_all(false); s.clr(F_ALT);
		s.clear_sb(); s.move_to(0, 0);
	}
	void cb(unsigned e, bool px) { if (have_mouse) { mouse.push_back({ e, px }); hook(1); } }
	void osc_done() { n_osc++; if (have_osc) { osc.push_back(oscbuf); hook(0); } }

	/* --- output to the client; with local echo it is also interpreted --- */
	void send(const std::string &d)
	{
		bool pre = flags & V_PREPEND;
		flags &= ~V_PREPEND;
		if (!depth && !(flags & V_SRM)) { if (pre) input("\x1b"); input(d); }
		if (pre) { out += '\x1b'; hook(2); }
		out += d;
		hook(2);
	}

	void input(const std::string &d)
	{
		depth++;
		for (unsigned char b : d) {
			if (flags & V_7BIT) parse(b & 0x7f);
			else if (flags & V_8BIT) parse(b);
			else decode(b);
		}
		depth--;
	}
	void decode(unsigned b)
	{
		if (need) {
			if ((b & 0xc0) != 0x80) {	/* cut short: the byte starts something new */
				need = 0; lo = hi = 0;
				parse(0xfffd);
				if (b != 0xc0 && b != 0xc1 && b < 0xf8) decode(b);
				return;
			}
			if (lo || hi) {			/* first continuation byte: restricted range */
				if (b < lo || b > hi) { need = 0; lo = hi = 0; parse(0xfffd); return; }
				lo = hi = 0;
			}
			acc = acc << 6 | (b & 63);
			if (!--need) parse(acc);
			return;
		}
		lo = hi = 0;
		if (b < 0x80) parse(b);
		else if (b < 0xc0) ;			/* out of sync */
		else if (b < 0xc2) parse(0xfffd);
		else if (b < 0xe0) { need = 1; acc = b & 31; }
		else if (b < 0xf0) { need = 2; acc = b & 15; lo = b == 0xe0 ? 0xa0 : 0x80; hi = b == 0xed ? 0x9f : 0xbf; }
		else if (b < 0xf8) {
			need = 3; acc = b & 7; lo = b == 0xf0 ? 0x90 : 0x80; hi = b == 0xf4 ? 0x8f : b > 0xf4 ? 1 : 0xbf;
		} else parse(0xfffd);
	}

	void clear() { argc = 0; for (int &a : arg) a = -1; inter.clear(); }
	void enter(St n)
	{
		if (st == OSC) osc_done();
		if (n == ESC || n == CSI_ENTRY || n == DCS) clear();
		if (n == OSC) { clear(); oscbuf.clear(); }
		st = n;
	}
	void leave_osc() { if (st == OSC) osc_done(); }
	void collect(uint32_t c)
	{
		char k = c < 0x80 && std::strchr("!$?> '\"*+()", int(c)) && c ? char(c) : '\x01';
		if (inter.find(k) == std::string::npos) inter += k;
	}
	void param(uint32_t c)
	{
		if (c == ';') { if (argc < 16) argc++; return; }
		if (argc >= 16) return;
		int &a = arg[argc];
		if (a > 0xffff) return;
		a = a <= 0 ? int(c - '0') : a * 10 + int(c - '0');
	}
	void parse(uint32_t c)
	{
		bool c0 = c < 0x20;
		switch (c) {
		case 0x18: case 0x1a: leave_osc(); exec(c); st = GROUND; return;
		case 0x1b: enter(ESC); return;
		case 0x98: case 0x9e: case 0x9f: enter(IGN); return;
		case 0x90: enter(DCS); return;
		case 0x9d: enter(OSC); return;
		case 0x9b: enter(CSI_ENTRY); return;
		}
		if (c >= 0x80 && c <= 0x9f) { leave_osc(); st = GROUND; exec(c); return; }
		switch (st) {
		case GROUND:
			if (c0) exec(c); else print(c);
			return;
		case ESC: case ESC_INT:
			if (c0) { exec(c); return; }
			if (c == 0x7f) return;
			if (c >= 0x80 || c <= 0x2f) { collect(c); st = ESC_INT; return; }
			if (st == ESC) {
				if (c == '[') { enter(CSI_ENTRY); return; }
				if (c == ']') { enter(OSC); return; }
				if (c == 'P') { enter(DCS); return; }
				if (c == 'X' || c == '^' || c == '_') { enter(IGN); return; }
			}
			n_esc++;
			st = GROUND;
			esc(c);
			return;
		case CSI_ENTRY: case CSI_PARAM: case CSI_INT:
			if (c0) { exec(c); return; }
			if (c == 0x7f) return;
			if (c >= 0x80) { st = CSI_IGN; return; }
			if (c >= 0x40) { n_csi++; st = GROUND; csi(c); return; }
			if (c <= 0x2f) { collect(c); st = CSI_INT; return; }
			if (c == ':' || st == CSI_INT) { st = CSI_IGN; return; }
			if (c >= 0x3c) {
				if (st == CSI_ENTRY) { collect(c); st = CSI_PARAM; } else st = CSI_IGN;
				return;
			}
			param(c); st = CSI_PARAM;
			return;
		case CSI_IGN:
			if (c0) { exec(c); return; }
			if (c >= 0x40 && c <= 0x7e) st = GROUND;
			return;
		case OSC:
			if (c == 7) { enter(GROUND); return; }
			if (c0) return;
			{ std::string u = utf8(c); if (oscbuf.size() + u.size() <= 127) oscbuf += u; }
			return;
		case DCS: case IGN:
			return;
		}
	}

	void print(uint32_t c)
	{
		n_print++;
		if (c >= 33 && c <= 126) { int set = glt >= 0 ? g[glt] : g[gl]; glt = -1; c = charset(set, c - 32); }
		else if (c >= 161 && c <= 254) c = charset(g[gr], c - 160);
		rgb(cur);
		s.write(c, cur);
	}
	void exec(uint32_t c)
	{
		n_exec++;
		switch (c) {
		case 0x05: send("\x06"); break;
		case 0x08: s.left(1); break;
		case 0x09: s.tab_right(1); break;
		case 0x0a: case 0x0b: case 0x0c: if (flags & V_LNM) s.newline(); else s.down(1, true); break;
		case 0x0d: s.home(); break;
		case 0x0e: gl = 1; break;
		case 0x0f: gl = 0; break;
		case 0x1a: rgb(cur); s.write(0xbf, cur); break;
		case 0x84: s.down(1, true); break;
		case 0x85: s.newline(); break;
		case 0x88: s.tab_set(); break;
		case 0x8d: s.up(1, true); break;
		case 0x8e: glt = 2; break;
		case 0x8f: glt = 3; break;
		case 0x9a: da1(); break;
		}
	}
	void da1() { send("\x1b[?60;1;6;9;15c"); }
	void save() { sv = { s.cx, s.cy, cur, gl, gr, bool(flags & V_WRAP), bool(flags & V_ORIGIN) }; }
	void fl(unsigned f, bool on) { if (on) flags |= f; else flags &= ~f; }
	void sfl(unsigned f, bool on) { if (on) s.set(f); else s.clr(f); }
	void goto_abs(unsigned x, unsigned y)
	{
		/* an absolute position; in origin mode confined to the rows above the bottom margin */
		if (s.flags & F_ORIGIN) {
			s.cx = std::min(x, s.w - 1);
			s.cy = std::min(y, s.mb);
		} else s.move_to(x, y);
	}
	void restore()
	{
		cur = sv.a; rgb(cur); s.def = cur;
		gl = sv.gl; gr = sv.gr;
		fl(V_WRAP, sv.wrap); sfl(F_WRAP, sv.wrap);
		fl(V_ORIGIN, sv.origin); sfl(F_ORIGIN, sv.origin);
		goto_abs(sv.x, sv.y);
	}
	void esc(uint32_t c)
	{
		if (inter.size() == 1 && std::strchr("()*+", inter[0])) {
			static const char order[] = "()*+";
			int slot = int(std::strchr(order, inter[0]) - order);
			int set = -1;
			if (c == 'B') set = 0;
			else if (c == '<') set = 2;
			else if (c == '0') set = 3;
			else if (c < 0x80 && std::strchr("A4C5RQKYE6ZH7=", int(c))) set = 1;
			if (set >= 0) g[slot] = set;
			return;
		}
		if (inter == " ") { if (c == 'F') flags &= ~V_C1; if (c == 'G') flags |= V_C1; return; }
		if (!inter.empty()) return;
		switch (c) {
		case 'D': s.down(1, true); break;
		case 'E': s.newline(); break;
		case 'H': s.tab_set(); break;
		case 'M': s.up(1, true); break;
		case 'N': glt = 2; break;
		case 'O': glt = 3; break;
		case 'Z': da1(); break;
		case '~': gr = 1; break;
		case 'n': gl = 2; break;
		case '}': gr = 2; break;
		case 'o': gl = 3; break;
		case '|': gr = 3; break;
		case '=': flags |= V_KEYPAD; break;
		case '>': flags &= ~V_KEYPAD; break;
		case 'c': hard_reset(); break;
		case '7': save(); break;
		case '8': restore(); break;
		}
	}
	int n1(int i = 0) { return arg[i] <= 0 ? 1 : arg[i]; }
	void csi(uint32_t c)
	{
		if (argc < 16) argc++;
		bool q = inter == "?";
		if (!inter.empty()) {
			if (inter.size() != 1) return;
			const char *okfor = q ? "JKhln" : inter == ">" ? "cp" : (inter == "!" || inter == "\"") ? "p" : "";
			if (!std::strchr(okfor, int(c))) return;
		}
		switch (c) {
		case 'A': s.up(n1(), false); break;
		case 'B': s.down(n1(), false); break;
		case 'C': s.right(n1()); break;
		case 'D': s.left(n1()); break;
		case 'd': s.move_to(s.cx, n1() - 1); break;
		case 'E': s.down(n1(), false); s.home(); break;
		case 'e': goto_abs(s.cx, s.cy + n1()); break;
		case 'F': s.up(n1(), false); s.home(); break;
		case 'H': case 'f': s.move_to(n1(1) - 1, n1(0) - 1); break;
		case 'G': goto_abs(n1() - 1, s.cy); break;
		case 'J': if (arg[0] <= 0) s.erase_below(q); else if (arg[0] == 1) s.erase_above(q); else if (arg[0] == 2) s.erase_all(q); break;
		case 'K': if (arg[0] <= 0) s.erase_to_end(q); else if (arg[0] == 1) s.erase_home(q); else if (arg[0] == 2) s.erase_line(q); break;
		case 'X': s.erase_chars(n1()); break;
		case 'm': sgr(); break;
		case 'p': if (inter == ">" || inter == "!") reset(); else compat(); break;
		case 'h': case 'l': for (int i = 0; i < argc; i++) mode(arg[i], q, c == 'h'); break;
		case 'r': s.margins(arg[0] < 0 ? 0 : arg[0], arg[1] < 0 ? 0 : arg[1]); break;
		case 'c': if (argc <= 1 && arg[0] <= 0) { if (inter == ">") send("\x1b[>1;1;0c"); else da1(); } break;
		case 'L': s.ins_lines(n1()); break;
		case 'M': s.del_lines(n1()); break;
		case 'g': if (arg[0] <= 0) s.tab_clr(); else if (arg[0] == 3) s.tab_clr_all(); break;
		case '@': s.ins_chars(n1()); break;
		case 'P': s.del_chars(n1()); break;
		case 'Z': s.tab_left(n1()); break;
		case 'I': s.tab_right(n1()); break;
		case 'n':
			if (arg[0] == 5) send("\x1b[0n");
			else if (arg[0] == 6) {
				long y = s.cy; if (s.flags & F_ORIGIN) y -= s.mt; if (y < 0) y = 0;
				char b[64]; snprintf(b, sizeof b, "\x1b[%ld;%uR", y + 1, s.vx() + 1);
				send(b);
			}
			break;
		case 'S': s.scroll_up(n1()); break;
		case 'T': s.scroll_down(n1()); break;
		}
	}
	void compat()
	{
		int a0 = arg[0], a1 = arg[1];
		reset();
		if (a0 == 61) { flags |= V_7BIT; g[0] = 0; g[1] = 2; }
		else if (a0 >= 62 && a0 <= 64) { if (a1 == 1 || a1 == 2) flags |= V_C1; flags |= V_8BIT; g[0] = 0; g[1] = 2; }
	}
	void mode(int m, bool q, bool on)
	{
		if (m < 0) return;
		if (!q) {
			switch (m) {
			case 2: fl(V_KAM, on); break;
			case 4: fl(V_IRM, on); sfl(F_INSERT, on); break;
			case 12: fl(V_SRM, on); break;
			case 20: fl(V_LNM, on); break;
			}
			return;
		}
		switch (m) {
		case 1: fl(V_CURSOR_KEY, on); break;
		case 5: fl(V_INV, on); sfl(F_INVERSE, on); break;
		case 6: fl(V_ORIGIN, on); sfl(F_ORIGIN, on); break;
		case 7: fl(V_WRAP, on); sfl(F_WRAP, on); break;
		case 8: fl(V_REPEAT, on); break;
		case 9: mmode = on ? 9 : 0; mevent = on ? 1002 : 0; cb(mevent, false); break;
		case 25: fl(V_TEXTCUR, on); sfl(F_HIDE, !on); break;
		case 42: fl(V_NATIONAL, on); break;
		case 47: sfl(F_ALT, on); break;
		case 1047: if (!on && s.alt()) s.erase_all(false); sfl(F_ALT, on); break;
		case 1048: if (on) { ax = s.cx; ay = s.cy; } else goto_abs(ax, ay); break;
		case 1049:
			if (on) { ax = s.cx; ay = s.cy; s.set(F_ALT); s.erase_all(false); }
			else { s.clr(F_ALT); goto_abs(ax, ay); }
			break;
		case 1002: case 1003:
			mevent = mmode == 9 ? 1002 : on ? m : 0;
			if (mmode) cb(mevent, mmode == 1016);
			break;
		case 1006: case 1016:
			mmode = on ? m : 0;
			if (!on) cb(0, false); else if (mevent) cb(mevent, m == 1016);
			break;
		}
	}
	void sgr()
	{
		if (argc <= 1 && arg[0] == -1) { argc = 1; arg[0] = 0; }
		for (int i = 0; i < argc; i++) {
			int v = arg[i];
			if (v == 0) { fcol(cur, def); bcol(cur, def); cur.bold = cur.italic = cur.underline = cur.inverse = cur.blink = false; }
			else if (v == 1) cur.bold = true; else if (v == 3) cur.italic = true;
			else if (v == 4) cur.underline = true; else if (v == 5) cur.blink = true;
			else if (v == 7) cur.inverse = true;
			else if (v == 22) cur.bold = false; else if (v == 23) cur.italic = false;
			else if (v == 24) cur.underline = false; else if (v == 25) cur.blink = false;
			else if (v == 27) cur.inverse = false;
			else if (v >= 30 && v <= 37) cur.fc = v - 30;
			else if (v == 39) fcol(cur, def);
			else if (v >= 40 && v <= 47) cur.bc = v - 40;
			else if (v == 49) bcol(cur, def);
			else if (v >= 90 && v <= 97) cur.fc = v - 90 + 8;
			else if (v >= 100 && v <= 107) cur.bc = v - 100 + 8;
			else if (v == 38 || v == 48) {
				int code = -1, r = 0, gg = 0, b = 0;
				if (i + 1 >= argc) continue;
				if (arg[i + 1] == 5) {
					if (i + 2 >= argc || arg[i + 2] < 0) continue;
					int n = arg[i + 2];
					static const int lv[6] = { 0, 95, 135, 175, 215, 255 };
					if (n < 16) code = n;
					else if (n < 232) { r = lv[(n - 16) / 36 % 6]; gg = lv[(n - 16) / 6 % 6]; b = lv[(n - 16) % 6]; }
					else r = gg = b = (8 + (n - 232) * 10) & 255;
					i += 2;
				} else if (arg[i + 1] == 2) {
					if (i + 4 >= argc || arg[i + 2] < 0 || arg[i + 3] < 0 || arg[i + 4] < 0) continue;
					r = arg[i + 2] & 255; gg = arg[i + 3] & 255; b = arg[i + 4] & 255;
					i += 4;
				} else continue;
				if (v == 38) { cur.fc = code; cur.fr = r; cur.fg = gg; cur.fb = b; }
				else { cur.bc = code; cur.br = r; cur.bg = gg; cur.bb = b; }
			}
		}
		rgb(cur);
		s.def = cur;
	}
	/* --- keyboard and mouse: see input.cpp --- */
	bool key(uint32_t keysym, uint32_t ascii, unsigned mods, uint32_t unicode);
	bool mouse_ev(unsigned cx, unsigned cy, unsigned px, unsigned py, unsigned button, unsigned event, unsigned mods);
};

} // namespace model

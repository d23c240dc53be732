/* Operations on a terminal, their text form (replay files), and the two
 * executors: the real library and the reference model. */
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "model.hpp"
#include "alloc.hpp"
extern "C" {
#include "libtsm.h"
}

#define OPS(X) \
	X(IN) X(RESIZE) X(MARGINS) X(MAXSB) X(CLEARSB) X(SBUP) X(SBDOWN) X(SBPGUP) X(SBPGDN) X(SBRESET) \
	X(DEFATTR) X(SRESET) X(SETF) X(CLRF) X(TABSET) X(TABCLR) X(TABCLRALL) X(WRITE) X(NEWLINE) X(SCRUP) X(SCRDN) \
	X(MOVETO) X(UP) X(DOWN) X(LEFT) X(RIGHT) X(LEND) X(HOME) X(TABR) X(TABL) X(INSL) X(DELL) X(INSC) X(DELC) \
	X(ERCUR) X(ERCH) X(EREOL) X(ERBOL) X(ERLINE) X(ERABOVE) X(ERBELOW) X(ERALL) X(SELRST) X(SELST) X(SELTGT) \
	X(SELCOPY) X(DRAW) X(VRESET) X(VHARD) X(PAL) X(CPAL) X(BSDEL) X(KEY) X(MOUSE) X(OSCCB) X(MOUSECB) X(GETTERS) X(ONCB) \
	X(VNEW) X(VSWAP) X(VDROP)	/* another emulator on the same screen: replace this one, change to the other one, release the other one */

enum OpKind {
#define X(n) O_##n,
	OPS(X)
#undef X
	O_COUNT
};
inline const char *op_name(int k)
{
	static const char *n[] = {
#define X(n) #n,
		OPS(X)
#undef X
	};
	return k >= 0 && k < O_COUNT ? n[k] : "?";
}

struct Op {
	int k;
	std::vector<int64_t> a;
	std::string s;
	bool has_s = true;
	bool foreign = false;	/* belongs to another property: only there to vary the state */
	Op(int kind = O_DRAW, std::vector<int64_t> args = {}, std::string str = "") : k(kind), a(std::move(args)), s(std::move(str)) {}
	int64_t v(size_t i) const { return i < a.size() ? a[i] : 0; }
};
inline Op IN(const std::string &s) { return Op(O_IN, {}, s); }

inline std::string esc_bytes(const std::string &s)
{
	std::string o; char b[8];
	for (unsigned char c : s) {
		if (c == '\\' || c == '"') { o += '\\'; o += char(c); }
		else if (c >= 32 && c < 127) o += char(c);
		else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	return o;
}
inline std::string unesc(const std::string &s)
{
	std::string o;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\') { o += s[i]; continue; }
		if (i + 3 < s.size() && s[i + 1] == 'x') { o += char(strtoul(s.substr(i + 2, 2).c_str(), nullptr, 16)); i += 3; }
		else if (i + 1 < s.size()) o += s[++i];
	}
	return o;
}
inline std::string op_str(const Op &o)
{
	std::string t = (o.foreign ? "~" : "") + std::string(op_name(o.k));
	for (auto v : o.a) t += " " + std::to_string(v);
	if (o.k == O_IN || o.k == O_PAL || o.k == O_CPAL) t += o.has_s ? " \"" + esc_bytes(o.s) + "\"" : " NULL";
	return t;
}
inline std::string ops_str(const std::vector<Op> &v) { std::string t; for (auto &o : v) t += op_str(o) + "\n"; return t; }
inline bool parse_op(const std::string &line, Op &o)
{
	if (!line.empty() && line[0] == '~') { bool ok = parse_op(line.substr(1), o); o.foreign = true; return ok; }
	std::istringstream is(line);
	std::string n; is >> n;
	if (n.empty() || n[0] == '#') return false;
	int k = -1;
	for (int i = 0; i < O_COUNT; i++) if (n == op_name(i)) k = i;
	if (k < 0) return false;
	o = Op(k);
	size_t q = line.find('"');
	std::istringstream is2(line.substr(n.size(), q == std::string::npos ? std::string::npos : q - n.size()));
	std::string tok;
	while (is2 >> tok) { if (tok == "NULL") o.has_s = false; else o.a.push_back(strtoll(tok.c_str(), nullptr, 0)); }
	if (q != std::string::npos) o.s = unesc(line.substr(q + 1, line.rfind('"') - q - 1));
	return true;
}

/* ---- calls from within callbacks ----
 * ONCB n puts the operation that follows aside, to be executed by the application
 * in its next callback (0: OSC string, 1: mouse tracking, 2: output to the client).
 * Input is not fed from within callbacks. From within the write callback, which may
 * stand between two pieces of output, nothing is done that sends or that resets. */
inline bool in_cb(int cb, int k)
{
	if (k == O_IN || k >= O_ONCB || cb < 0 || cb > 2) return false;
	return cb != 2 || (k != O_VRESET && k != O_VHARD && k != O_KEY && k != O_MOUSE);
}
/* what a reset of the terminal, which also calls back, does not touch */
inline bool reset_proof(int k)
{
	switch (k) {
	case O_RESIZE: case O_MAXSB: case O_CLEARSB: case O_SBUP: case O_SBDOWN: case O_SBPGUP: case O_SBPGDN: case O_SBRESET: case O_SELRST:
	case O_SELST: case O_SELTGT: case O_SELCOPY: case O_PAL: case O_CPAL: case O_BSDEL: case O_OSCCB: case O_MOUSECB: return true;
	}
	return false;
}
struct InCb {		/* one operation executed in a callback: what was observed around it */
	int cb = 0;
	Op o;
	std::string seen, txt, alt;
	bool vague = false;	/* the selection is not known */
	std::vector<model::DCell> cells;
};
/* the queues of either side */
struct CbQueue {
	std::deque<Op> q[3];
	int armed = -1;
	/* true: put aside */
	bool put(const Op &o)
	{
		if (o.k == O_ONCB) { armed = o.v(0); return true; }
		if (armed < 0) return false;
		int a = armed; armed = -1;
		if (!in_cb(a, o.k)) return false;
		q[a].push_back(o);
		return true;
	}
	bool get(int cb, bool idle_mouse, Op &o)
	{
		if (q[cb].empty() || (cb == 1 && idle_mouse && !reset_proof(q[cb].front().k))) return false;
		o = q[cb].front(); q[cb].pop_front();
		return true;
	}
};
inline std::string seen_str(bool quiet, unsigned x, unsigned y, unsigned w, unsigned h, unsigned f, unsigned vf, unsigned mm, unsigned me, unsigned sc, unsigned sp)
{
	char b[160];
	if (quiet) snprintf(b, sizeof b, "[size %ux%u history %u/%u]", w, h, sp, sc);
	else snprintf(b, sizeof b, "[cursor (%u,%u) size %ux%u flags %#x/%#x mouse %u/%u history %u/%u]", x, y, w, h, f, vf, mm, me, sp, sc);
	return b;
}

/* ---- attributes as op arguments: fc bc fr fg fb br bg bb flags ---- */
inline model::Attr attr_of(const Op &o, size_t i)
{
	model::Attr a;
	a.fc = o.v(i); a.bc = o.v(i + 1); a.fr = o.v(i + 2); a.fg = o.v(i + 3); a.fb = o.v(i + 4);
	a.br = o.v(i + 5); a.bg = o.v(i + 6); a.bb = o.v(i + 7);
	int f = o.v(i + 8);
	a.bold = f & 1; a.italic = f & 2; a.underline = f & 4; a.inverse = f & 8; a.protect = f & 16; a.blink = f & 32;
	return a;
}
inline model::Attr from_tsm(const struct tsm_screen_attr *t)
{
	model::Attr a;
	a.fc = t->fccode; a.bc = t->bccode; a.fr = t->fr; a.fg = t->fg; a.fb = t->fb; a.br = t->br; a.bg = t->bg; a.bb = t->bb;
	a.bold = t->bold; a.italic = t->italic; a.underline = t->underline; a.inverse = t->inverse; a.protect = t->protect; a.blink = t->blink;
	return a;
}
inline struct tsm_screen_attr to_tsm(const model::Attr &a)
{
	struct tsm_screen_attr t;
	memset(&t, 0, sizeof t);
	t.fccode = a.fc; t.bccode = a.bc; t.fr = a.fr; t.fg = a.fg; t.fb = a.fb; t.br = a.br; t.bg = a.bg; t.bb = a.bb;
	t.bold = a.bold; t.italic = a.italic; t.underline = a.underline; t.inverse = a.inverse; t.protect = a.protect; t.blink = a.blink;
	return t;
}
inline std::string attr_str(const model::Attr &a)
{
	char b[128];
	snprintf(b, sizeof b, "fg(%d:%d,%d,%d) bg(%d:%d,%d,%d)%s%s%s%s%s%s", a.fc, a.fr, a.fg, a.fb, a.bc, a.br, a.bg, a.bb,
		 a.bold ? " bold" : "", a.italic ? " italic" : "", a.underline ? " underline" : "", a.inverse ? " inverse" : "",
		 a.protect ? " protect" : "", a.blink ? " blink" : "");
	return b;
}

/* ------------------------------------------------------------------ */

/* marks everything the library hands to its user; only has a meaning below valgrind */
#include <valgrind/memcheck.h>
inline const bool on_valgrind = [] { return RUNNING_ON_VALGRIND != 0; }();
inline void defined(const void *p, size_t n, std::string &err, const char *what)
{
	if (on_valgrind && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) err = std::string("uninitialised memory handed out: ") + what;
}

struct Frame {			/* one drawing of the screen, as the renderer got it */
	unsigned w = 0, h = 0;
	std::vector<model::DCell> c;
	std::vector<uint64_t> age, id;
	std::vector<int> hits;
	uint64_t ret = 0, calls = 0;
	std::string err;	/* violation of the drawing contract */
	uint32_t last_idx = 0;
	bool monotone = true;
	int cb_ret = 0;		/* what the renderer's callback returns */
};

struct Real {
	struct tsm_screen *s = nullptr;
	struct tsm_vte *v = nullptr, *v2 = nullptr;	/* v2: the emulator that is not driven at present */
	bool logging = false;
	std::string out;
	std::vector<std::string> osc;
	std::vector<model::MouseEv> mouse;
	uint64_t logs = 0, writes = 0;
	std::string err;		/* contract violation noticed in a callback */
	unsigned sel_copies = 0; std::string last_sel; int last_sel_ret = 0; bool last_ret = false;
	bool drawing = false;
	CbQueue cbq;
	std::vector<InCb> incb;

	std::string seen(bool quiet)
	{
		return seen_str(quiet, tsm_screen_get_cursor_x(s), tsm_screen_get_cursor_y(s), tsm_screen_get_width(s), tsm_screen_get_height(s), tsm_screen_get_flags(s),
				tsm_vte_get_flags(v), tsm_vte_get_mouse_mode(v), tsm_vte_get_mouse_event(v), tsm_screen_sb_get_line_count(s), tsm_screen_sb_get_line_pos(s));
	}
	void from_cb(int cb)
	{
		if (!v) return;
		InCb i;
		bool idle = !tsm_vte_get_mouse_mode(v) && !tsm_vte_get_mouse_event(v);
		if (!cbq.get(cb, idle, i.o)) return;
		i.cb = cb;
		bool quiet = cb == 1 && idle;
		tsm_screen_ref(s); tsm_vte_ref(v);
		i.seen = seen(quiet);
		if (i.o.k == O_DRAW) { Frame f = draw(); if (!f.err.empty()) err = f.err; i.cells = f.c; }
		else do_op(i.o);
		i.seen += seen(quiet);
		if (i.o.k == O_SELCOPY) i.txt = last_sel_ret < 0 ? "none" : "\"" + last_sel + "\"";
		tsm_vte_unref(v); tsm_screen_unref(s);
		incb.push_back(i);
	}

	static void log_cb(void *data, const char *file, int, const char *func, const char *subs, unsigned sev, const char *fmt, va_list ap)
	{
		char b[512];
		vsnprintf(b, sizeof b, fmt, ap);
		if (data) {
			((Real *)data)->logs++;
			if (sev > 7 || (file && !strlen(file)) || (func && !strlen(func)) || (subs && !strlen(subs))) ((Real *)data)->err = "malformed log message";
		}
	}
	static void write_cb(struct tsm_vte *v, const char *d, size_t n, void *data)
	{
		Real *r = (Real *)data;
		if (r->v && v != r->v) r->err = "write callback got another vte";
		r->writes++;
		defined(d, n, r->err, "output to the client");
		r->out.append(d, n);
		r->from_cb(2);
	}
	static void osc_cb(struct tsm_vte *v, const char *d, size_t n, void *data)
	{
		Real *r = (Real *)data;
		if (r->v && v != r->v) r->err = "osc callback got another vte";
		defined(d, n + 1, r->err, "OSC string");
		if (d[n] != 0) r->err = "osc string not NUL-terminated";
		r->osc.push_back(std::string(d, n));
		r->from_cb(0);
		if (r->osc.back().compare(0, n + 1, d, n)) r->err = "OSC string changed during the callback";
	}
	static void mouse_cb(struct tsm_vte *v, enum tsm_mouse_track_mode m, bool px, void *data)
	{
		Real *r = (Real *)data;
		if (r->v && v != r->v) r->err = "mouse callback got another vte";
		r->mouse.push_back({ (unsigned)m, px });
		r->from_cb(1);
	}
	Real(bool vte = true, bool log = false)
	{
		logging = log;
		if (tsm_screen_new(&s, log ? log_cb : nullptr, this)) abort();
		if (vte && !(v = emulator())) abort();
	}
	struct tsm_vte *emulator()
	{
		struct tsm_vte *n = nullptr;
		if (tsm_vte_new(&n, s, write_cb, this, logging ? log_cb : nullptr, this)) return nullptr;
		tsm_vte_set_osc_cb(n, osc_cb, this);
		tsm_vte_set_mouse_cb(n, mouse_cb, this);
		return n;
	}
	Real(const Real &) = delete;
	~Real() { if (v) tsm_vte_unref(v); if (v2) tsm_vte_unref(v2); if (s) tsm_screen_unref(s); }

	static int draw_cb(struct tsm_screen *, uint64_t id, const uint32_t *ch, size_t len, unsigned w, unsigned x, unsigned y,
			   const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
	{
		Frame *f = (Frame *)data;
		f->calls++;
		if (on_valgrind) {
			struct { uint64_t id; size_t len; unsigned w, x, y; tsm_age_t age; } v;
			memset(&v, 0, sizeof v);
			v.id = id; v.len = len; v.w = w; v.x = x; v.y = y; v.age = age;
			defined(&v, sizeof v, f->err, "cell position, width or age");
			for (size_t k = 0; k < len; k++) defined(&ch[k], 4, f->err, "text of a cell");
			defined(attr, offsetof(struct tsm_screen_attr, bb) + 1, f->err, "colours of a cell");
			model::Attr t = from_tsm(attr);
			defined(&t.bold, 1, f->err, "attribute of a cell"); defined(&t.italic, 1, f->err, "attribute of a cell"); defined(&t.underline, 1, f->err, "attribute of a cell");
			defined(&t.inverse, 1, f->err, "attribute of a cell"); defined(&t.protect, 1, f->err, "attribute of a cell"); defined(&t.blink, 1, f->err, "attribute of a cell");
		}
		if (x >= f->w || y >= f->h) { f->err = "cell outside of the grid"; return 0; }
		size_t i = size_t(y) * f->w + x;
		f->hits[i]++;
		if (i < f->last_idx) f->monotone = false;
		f->last_idx = i;
		model::DCell &c = f->c[i];
		c.ch = len ? ch[0] : 0;
		if (len > 1) c.ch = 0x80000000u | (uint32_t)len;
		if (len && !ch) f->err = "text length without text";
		c.w = w;
		c.a = from_tsm(attr);
		f->age[i] = age;
		f->id[i] = id;
		return f->cb_ret;
	}
	Frame draw(int cb_ret = 0)
	{
		Frame f;
		f.cb_ret = cb_ret;
		f.w = tsm_screen_get_width(s); f.h = tsm_screen_get_height(s);
		size_t n = size_t(f.w) * f.h;
		f.c.resize(n); f.age.resize(n); f.id.resize(n); f.hits.resize(n);
		f.ret = tsm_screen_draw(s, draw_cb, &f);
		return f;
	}
	void feed(const std::string &d) { tsm_vte_input(v, d.data(), d.size()); }
	void apply(const Op &o) { if (!cbq.put(o)) do_op(o); }
	void do_op(const Op &o)
	{
		struct tsm_screen_attr t;
		switch (o.k) {
		case O_IN: feed(o.s); break;
		case O_RESIZE: tsm_screen_resize(s, o.v(0), o.v(1)); break;
		case O_MARGINS: tsm_screen_set_margins(s, o.v(0), o.v(1)); break;
		case O_MAXSB: tsm_screen_set_max_sb(s, o.v(0)); break;
		case O_CLEARSB: tsm_screen_clear_sb(s); break;
		case O_SBUP: tsm_screen_sb_up(s, o.v(0)); break;
		case O_SBDOWN: tsm_screen_sb_down(s, o.v(0)); break;
		case O_SBPGUP: tsm_screen_sb_page_up(s, o.v(0)); break;
		case O_SBPGDN: tsm_screen_sb_page_down(s, o.v(0)); break;
		case O_SBRESET: tsm_screen_sb_reset(s); break;
		case O_DEFATTR: t = to_tsm(attr_of(o, 0)); tsm_screen_set_def_attr(s, &t); break;
		case O_SRESET: tsm_screen_reset(s); break;
		case O_SETF: tsm_screen_set_flags(s, o.v(0)); break;
		case O_CLRF: tsm_screen_reset_flags(s, o.v(0)); break;
		case O_TABSET: tsm_screen_set_tabstop(s); break;
		case O_TABCLR: tsm_screen_reset_tabstop(s); break;
		case O_TABCLRALL: tsm_screen_reset_all_tabstops(s); break;
		case O_WRITE: t = to_tsm(attr_of(o, 1)); tsm_screen_write(s, o.v(0), &t); break;
		case O_NEWLINE: tsm_screen_newline(s); break;
		case O_SCRUP: tsm_screen_scroll_up(s, o.v(0)); break;
		case O_SCRDN: tsm_screen_scroll_down(s, o.v(0)); break;
		case O_MOVETO: tsm_screen_move_to(s, o.v(0), o.v(1)); break;
		case O_UP: tsm_screen_move_up(s, o.v(0), o.v(1)); break;
		case O_DOWN: tsm_screen_move_down(s, o.v(0), o.v(1)); break;
		case O_LEFT: tsm_screen_move_left(s, o.v(0)); break;
		case O_RIGHT: tsm_screen_move_right(s, o.v(0)); break;
		case O_LEND: tsm_screen_move_line_end(s); break;
		case O_HOME: tsm_screen_move_line_home(s); break;
		case O_TABR: tsm_screen_tab_right(s, o.v(0)); break;
		case O_TABL: tsm_screen_tab_left(s, o.v(0)); break;
		case O_INSL: tsm_screen_insert_lines(s, o.v(0)); break;
		case O_DELL: tsm_screen_delete_lines(s, o.v(0)); break;
		case O_INSC: tsm_screen_insert_chars(s, o.v(0)); break;
		case O_DELC: tsm_screen_delete_chars(s, o.v(0)); break;
		case O_ERCUR: tsm_screen_erase_cursor(s); break;
		case O_ERCH: tsm_screen_erase_chars(s, o.v(0)); break;
		case O_EREOL: tsm_screen_erase_cursor_to_end(s, o.v(0)); break;
		case O_ERBOL: tsm_screen_erase_home_to_cursor(s, o.v(0)); break;
		case O_ERLINE: tsm_screen_erase_current_line(s, o.v(0)); break;
		case O_ERABOVE: tsm_screen_erase_screen_to_cursor(s, o.v(0)); break;
		case O_ERBELOW: tsm_screen_erase_cursor_to_screen(s, o.v(0)); break;
		case O_ERALL: tsm_screen_erase_screen(s, o.v(0)); break;
		case O_SELRST: tsm_screen_selection_reset(s); break;
		case O_SELST: tsm_screen_selection_start(s, o.v(0), o.v(1)); break;
		case O_SELTGT: tsm_screen_selection_target(s, o.v(0), o.v(1)); break;
		case O_SELCOPY: {
			char *p = nullptr;
			last_sel.clear(); sel_copies++;
			last_sel_ret = tsm_screen_selection_copy(s, &p);
			if (last_sel_ret >= 0) {
				if (p) defined(p, last_sel_ret + 1, err, "copied selection");
				if (!p) err = "selection copy succeeded without a buffer";
				else {
					if ((size_t)last_sel_ret != strlen(p)) err = "selection length " + std::to_string(last_sel_ret) + " != strlen " + std::to_string(strlen(p));
					last_sel = p;
				}
				user_free(p);
			}
			break;
		}
		case O_DRAW: draw(); break;
		case O_VRESET: tsm_vte_reset(v); break;
		case O_VHARD: tsm_vte_hard_reset(v); break;
		case O_PAL: tsm_vte_set_palette(v, o.has_s ? o.s.c_str() : nullptr); break;
		case O_CPAL: {
			uint8_t p[18][3];
			for (int i = 0; i < 54; i++) p[i / 3][i % 3] = i < (int)o.s.size() ? (uint8_t)o.s[i] : 0;
			tsm_vte_set_custom_palette(v, o.has_s ? p : nullptr);
			memset(p, 0xee, sizeof p);	/* the caller's array may change afterwards */
			break;
		}
		case O_BSDEL: tsm_vte_set_backspace_sends_delete(v, o.v(0)); break;
		case O_KEY: last_ret = tsm_vte_handle_keyboard(v, o.v(0), o.v(1), o.v(2), o.v(3)); break;
		case O_MOUSE: last_ret = tsm_vte_handle_mouse(v, o.v(0), o.v(1), o.v(2), o.v(3), o.v(4), o.v(5), o.v(6)); break;
		case O_VNEW: {
			if (!o.v(0)) { tsm_vte_unref(v); v = nullptr; if (!(v = emulator())) abort(); break; }
			struct tsm_vte *n = emulator();
			if (n) { tsm_vte_unref(v); v = n; }
			break;
		}
		case O_VSWAP: if (!v2) v2 = emulator(); if (v2) std::swap(v, v2); break;
		case O_VDROP: if (v2) tsm_vte_unref(v2); v2 = nullptr; break;
		case O_OSCCB: tsm_vte_set_osc_cb(v, o.v(0) ? osc_cb : nullptr, this); break;
		case O_MOUSECB: tsm_vte_set_mouse_cb(v, o.v(0) ? mouse_cb : nullptr, this); break;
		case O_GETTERS:
			(void)tsm_screen_get_cursor_x(s); (void)tsm_screen_get_cursor_y(s); (void)tsm_screen_get_flags(s);
			(void)tsm_screen_get_width(s); (void)tsm_screen_get_height(s);
			(void)tsm_screen_sb_get_line_count(s); (void)tsm_screen_sb_get_line_pos(s);
			if (v) {
				(void)tsm_vte_get_flags(v); (void)tsm_vte_get_mouse_mode(v); (void)tsm_vte_get_mouse_event(v);
				tsm_vte_get_def_attr(v, &t);
			}
			break;
		}
	}
};

struct Mod {
	model::Screen s;
	model::Vte *v = nullptr, *v2 = nullptr;
	std::string sel_txt, sel_alt; int sel_ret = 0; bool last_ret = false;
	CbQueue cbq;
	std::vector<InCb> incb;
	explicit Mod(bool vte = true) { if (vte) v = emulator(); }
	model::Vte *emulator() { auto *n = new model::Vte(s); n->hook = [this](int cb) { from_cb(cb); }; return n; }
	/* what was observed so far goes on with the emulator that is driven now */
	static void hand_over(model::Vte *from, model::Vte *to)
	{
		to->out = std::move(from->out); to->osc = std::move(from->osc); to->mouse = std::move(from->mouse);
		to->n_print = from->n_print; to->n_exec = from->n_exec; to->n_csi = from->n_csi; to->n_esc = from->n_esc; to->n_osc = from->n_osc;
	}
	std::string seen(bool quiet) { return seen_str(quiet, s.cx, s.cy, s.w, s.h, s.flags, v->flags, v->mmode, v->mevent, s.sb_count(), s.sb_pos()); }
	void from_cb(int cb)
	{
		InCb i;
		bool idle = !v->mmode && !v->mevent;
		if (!cbq.get(cb, idle, i.o)) return;
		i.cb = cb;
		bool quiet = cb == 1 && idle;
		i.seen = seen(quiet);
		i.vague = s.sel && s.sel_vague;
		if (i.o.k == O_DRAW) i.cells = s.draw();
		else do_op(i.o);
		i.seen += seen(quiet);
		if (i.o.k == O_SELCOPY) { i.txt = sel_ret == -2 ? "none" : "\"" + sel_txt + "\""; i.alt = sel_ret == -2 ? "none" : "\"" + sel_alt + "\""; }
		incb.push_back(i);
	}
	Mod(const Mod &) = delete;
	~Mod() { delete v; delete v2; }
	void apply(const Op &o) { if (!cbq.put(o)) do_op(o); }
	void do_op(const Op &o)
	{
		using namespace model;
		switch (o.k) {
		case O_IN: v->input(o.s); break;
		case O_RESIZE: s.resize(o.v(0), o.v(1)); break;
		case O_MARGINS: s.margins(o.v(0), o.v(1)); break;
		case O_MAXSB: s.set_max(o.v(0)); break;
		case O_CLEARSB: s.clear_sb(); break;
		case O_SBUP: s.sb_up(o.v(0)); break;
		case O_SBDOWN: s.sb_down(o.v(0)); break;
		case O_SBPGUP: s.sb_up(uint64_t(o.v(0)) * s.h); break;
		case O_SBPGDN: s.sb_down(uint64_t(o.v(0)) * s.h); break;
		case O_SBRESET: s.sb_reset(); break;
		case O_DEFATTR: s.def = attr_of(o, 0); break;
		case O_SRESET: s.reset(); break;
		case O_SETF: s.set(o.v(0)); break;
		case O_CLRF: s.clr(o.v(0)); break;
		case O_TABSET: s.tab_set(); break;
		case O_TABCLR: s.tab_clr(); break;
		case O_TABCLRALL: s.tab_clr_all(); break;
		case O_WRITE: s.write(o.v(0), attr_of(o, 1)); break;
		case O_NEWLINE: s.newline(); break;
		case O_SCRUP: s.scroll_up(o.v(0)); break;
		case O_SCRDN: s.scroll_down(o.v(0)); break;
		case O_MOVETO: s.move_to(o.v(0), o.v(1)); break;
		case O_UP: s.up(o.v(0), o.v(1)); break;
		case O_DOWN: s.down(o.v(0), o.v(1)); break;
		case O_LEFT: s.left(o.v(0)); break;
		case O_RIGHT: s.right(o.v(0)); break;
		case O_LEND: s.line_end(); break;
		case O_HOME: s.home(); break;
		case O_TABR: s.tab_right(o.v(0)); break;
		case O_TABL: s.tab_left(o.v(0)); break;
		case O_INSL: s.ins_lines(o.v(0)); break;
		case O_DELL: s.del_lines(o.v(0)); break;
		case O_INSC: s.ins_chars(o.v(0)); break;
		case O_DELC: s.del_chars(o.v(0)); break;
		case O_ERCUR: s.erase_cursor(); break;
		case O_ERCH: s.erase_chars(o.v(0)); break;
		case O_EREOL: s.erase_to_end(o.v(0)); break;
		case O_ERBOL: s.erase_home(o.v(0)); break;
		case O_ERLINE: s.erase_line(o.v(0)); break;
		case O_ERABOVE: s.erase_above(o.v(0)); break;
		case O_ERBELOW: s.erase_below(o.v(0)); break;
		case O_ERALL: s.erase_all(o.v(0)); break;
		case O_SELRST: s.sel = s.sel_vague = false; break;
		case O_SELST: s.sel_start(o.v(0), o.v(1)); break;
		case O_SELTGT: s.sel_target(o.v(0), o.v(1)); break;
		case O_SELCOPY: sel_ret = s.sel_copy(sel_txt, sel_alt); break;
		case O_VNEW: { auto *n = emulator(); hand_over(v, n); delete v; v = n; break; }
		case O_VSWAP: if (!v2) v2 = emulator(); hand_over(v, v2); std::swap(v, v2); break;
		case O_VDROP: delete v2; v2 = nullptr; break;
		case O_VRESET: v->reset(); break;
		case O_VHARD: v->hard_reset(); break;
		case O_PAL: v->set_palette(o.has_s ? o.s.c_str() : nullptr); break;
		case O_CPAL: {
			uint8_t p[18][3];
			for (int i = 0; i < 54; i++) p[i / 3][i % 3] = i < (int)o.s.size() ? (uint8_t)o.s[i] : 0;
			v->set_custom(o.has_s ? p : nullptr);
			break;
		}
		case O_BSDEL: v->bs_del = o.v(0); break;
		case O_KEY: last_ret = v->key(o.v(0), o.v(1), o.v(2), o.v(3)); break;
		case O_MOUSE: last_ret = v->mouse_ev(o.v(0), o.v(1), o.v(2), o.v(3), o.v(4), o.v(5), o.v(6)); break;
		case O_OSCCB: v->have_osc = o.v(0); break;
		case O_MOUSECB: v->have_mouse = o.v(0); break;
		}
	}
};

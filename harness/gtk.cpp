/* C44: the example terminal's widget.  The real widget runs on stand-ins for
 * the GTK base class and for the pseudo terminal; what it paints is compared,
 * pixel by pixel, with what the reference model says is on the screen. */
#include "check.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/time.h>
#include <csignal>
#include <sstream>
#include <gtk/gtk.h>
#include <xkbcommon/xkbcommon.h>
extern "C" {
#include "gtktsm-terminal.h"
#include "shl-pty.h"
}
using namespace model;
typedef std::vector<std::string> VS;
typedef std::vector<int64_t> VI;

/* ---- what the stand-ins record ---- */
struct shl_pty {
	shl_pty_input_fn fn; void *data;
	unsigned cols, rows;
	bool open; unsigned long ref;
	std::string out; size_t flushed;
	std::string in;		/* written by the child, not read yet */
	std::vector<int> signals;
	int bridge;
};
struct Host {			/* one widget and its surroundings */
	GtkTsmTerminal *t = nullptr;
	shl_pty *pty = nullptr;
	GChildWatchFunc child_fn = nullptr; gpointer child_data = nullptr; guint child_src = 0;
	std::vector<std::string> titles;
	unsigned stopped = 0;
	bool dirty = false;
	cairo_surface_t *win = nullptr;
	unsigned w = 0, h = 0;
	std::string out;	/* what all children got so far */
	uint64_t draws = 0;
	bool handled = false;	/* what the last key press event returned */
};
static Host *cur;		/* the widget that is being called */
static bool app_mode;		/* the whole program runs, not only the widget */
static int app_fork();
static std::map<void *, Host *> hosts;
static std::string log_err;
static int ptys;		/* live pty objects */
static int fake_pid = 100000;

extern "C" {
pid_t shl_pty_open(struct shl_pty **out, shl_pty_input_fn fn, void *data, unsigned short w, unsigned short h)
{
	if (!out || !fn || !w || !h) return -EINVAL;
	auto p = new shl_pty();
	p->fn = fn; p->data = data; p->cols = w; p->rows = h; p->open = true; p->ref = 1; p->flushed = 0; p->bridge = -1;
	ptys++;
	*out = p;
	cur->pty = p;
	if (app_mode && app_fork() == 0) return 0;
	return ++fake_pid;
}
void shl_pty_ref(struct shl_pty *p) { if (p) p->ref++; }
void shl_pty_unref(struct shl_pty *p) { if (p && !--p->ref) { ptys--; for (auto &h : hosts) if (h.second->pty == p) h.second->pty = nullptr; delete p; } }
void shl_pty_close(struct shl_pty *p) { if (p) p->open = false; }
bool shl_pty_is_open(struct shl_pty *p) { return p && p->open; }
int shl_pty_get_fd(struct shl_pty *p) { return p && p->open ? 0 : -EPIPE; }
pid_t shl_pty_get_child(struct shl_pty *p) { return p && p->open ? fake_pid : -ECHILD; }
int shl_pty_dispatch(struct shl_pty *p)
{
	if (!p || !p->open) return -ENODEV;
	int more = 0;
	for (int k = 0; k < 2; k++) {	/* as the real one: two reads, then the others' turn */
		if (p->in.empty()) { more = 0; break; }
		std::string s = p->in.substr(0, 512);
		p->in.erase(0, 512);
		std::vector<char> b(s.begin(), s.end());
		p->fn(p, p->data, b.data(), b.size());
		more = 1;
	}
	p->flushed = p->out.size();
	return more ? -EAGAIN : 0;
}
int shl_pty_write(struct shl_pty *p, const char *u8, size_t n)
{
	if (!p || !p->open) return -ENODEV;
	p->out.append(u8, n);
	if (cur && cur->pty == p) cur->out.append(u8, n);
	return 0;
}
int shl_pty_signal(struct shl_pty *p, int sig) { if (!p || !p->open) return -ENODEV; p->signals.push_back(sig); return 0; }
int shl_pty_resize(struct shl_pty *p, unsigned short w, unsigned short h) { if (!p || !p->open) return -ENODEV; p->cols = w; p->rows = h; return 0; }
static int bridge_other[2048];
int shl_pty_bridge_new(void) { int f[2]; if (pipe(f)) return -errno; if (f[0] < 2048) bridge_other[f[0]] = f[1]; return f[0]; }
void shl_pty_bridge_free(int b) { if (b >= 0) { if (b < 2048) close(bridge_other[b]); close(b); } }
static struct shl_pty *bridge_pty[2048];
static void bridge_wake(int b) { if (b >= 0 && b < 2048 && write(bridge_other[b], "", 1) != 1) abort(); }
int shl_pty_bridge_dispatch_pty(int b, struct shl_pty *p) { if (shl_pty_dispatch(p) == -EAGAIN) bridge_wake(b); return 0; }
int shl_pty_bridge_dispatch(int b, int)
{
	struct pollfd f = { b, POLLIN, 0 };
	char c;
	if (poll(&f, 1, 0) == 1 && read(b, &c, 1) == 1 && bridge_pty[b]) shl_pty_bridge_dispatch_pty(b, bridge_pty[b]);
	return 0;
}
int shl_pty_bridge_add(int b, struct shl_pty *p) { if (b < 0 || b >= 2048 || !p) return -EINVAL; p->bridge = b; bridge_pty[b] = p; return 0; }
void shl_pty_bridge_remove(int b, struct shl_pty *p) { if (p) p->bridge = -1; if (b >= 0 && b < 2048) bridge_pty[b] = nullptr; }

/* GTK */
static GType make_type(const char *name, GType parent, guint16 cs, guint16 is, bool signals)
{
	GTypeInfo ti = {};
	ti.class_size = cs; ti.instance_size = is;
	GType t = g_type_register_static(parent, name, &ti, (GTypeFlags)0);
	if (signals) {
		g_type_class_unref(g_type_class_ref(t));
		for (auto n : { "configure-event", "draw", "key-press-event", "key-release-event", "button-press-event", "button-release-event", "motion-notify-event", "scroll-event", "size-allocate", "realize" })
			g_signal_new(n, t, G_SIGNAL_RUN_LAST, 0, nullptr, nullptr, nullptr, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
		g_signal_new("destroy", t, G_SIGNAL_RUN_CLEANUP, 0, nullptr, nullptr, nullptr, G_TYPE_NONE, 0);
	}
	return t;
}
GType gtk_widget_get_type(void) { static GType t = make_type("StandInWidget", G_TYPE_INITIALLY_UNOWNED, sizeof(GtkWidgetClass), sizeof(GtkWidget), true); return t; }
GType gtk_drawing_area_get_type(void) { static GType t = make_type("StandInDrawingArea", gtk_widget_get_type(), sizeof(GtkDrawingAreaClass), sizeof(GtkDrawingArea), false); return t; }
void gtk_widget_queue_draw(GtkWidget *w) { auto i = hosts.find(w); if (i != hosts.end()) i->second->dirty = true; else if (cur) cur->dirty = true; }
void gtk_widget_queue_draw_area(GtkWidget *w, int, int, int, int) { gtk_widget_queue_draw(w); }
void gtk_widget_queue_resize(GtkWidget *w) { gtk_widget_queue_draw(w); }
void gtk_widget_set_can_focus(GtkWidget *, gboolean) {}
GdkWindow *gtk_widget_get_window(GtkWidget *) { return nullptr; }
GdkDisplay *gtk_widget_get_display(GtkWidget *) { return nullptr; }
int gtk_widget_get_allocated_width(GtkWidget *w) { auto i = hosts.find(w); return i != hosts.end() ? i->second->w : 1; }
int gtk_widget_get_allocated_height(GtkWidget *w) { auto i = hosts.find(w); return i != hosts.end() ? i->second->h : 1; }
GdkEventMask gdk_window_get_events(GdkWindow *) { return (GdkEventMask)0; }
void gdk_window_set_events(GdkWindow *, GdkEventMask) {}
GdkKeymap *gdk_keymap_get_for_display(GdkDisplay *) { static int k; return (GdkKeymap *)&k; }
static guint keymap_key;
static bool keymap_ok = true;
gboolean gdk_keymap_translate_keyboard_state(GdkKeymap *, guint, GdkModifierType, gint, guint *key, gint *g, gint *l, GdkModifierType *c)
{
	if (key) *key = keymap_key;
	if (g) *g = 0;
	if (l) *l = 0;
	if (c) *c = (GdkModifierType)0;
	return keymap_ok;
}
static gboolean never(gpointer) { return TRUE; }
guint g_child_watch_add(GPid, GChildWatchFunc fn, gpointer data)
{
	cur->child_fn = fn; cur->child_data = data;
	return cur->child_src = g_timeout_add_seconds(1000000, never, nullptr);
}
}
static void on_log(const gchar *dom, GLogLevelFlags l, const gchar *msg, gpointer)
{
	if ((l & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING)) && log_err.empty()) log_err = fmt("%s: %s", dom ? dom : "", msg);
	if (l & G_LOG_FLAG_FATAL) fprintf(stderr, "fatal message: %s\n", msg);
}
static void on_title(GtkTsmTerminal *, const char *s, gpointer d) { ((Host *)d)->titles.push_back(s ? s : "(null)"); }
static void on_stopped(GtkTsmTerminal *, gpointer d) { ((Host *)d)->stopped++; }

static const char *FONTS[] = { "Monospace 10", "Monospace 7", "Sans 10", "Serif 13", "Monospace 16" };
static const char *AA[] = { "default", "none", "gray", "subpixel" };
static const char *SUB[] = { "default", "rgb", "bgr", "vrgb", "vbgr" };
struct Look { int font = 0, aa = 0, sub = 0; int key() const { return font * 100 + aa * 10 + sub; } };

static void spin() { for (int i = 0; i < 100 && g_main_context_iteration(nullptr, FALSE); i++); }
struct Widget : Host {
	Look look;
	explicit Widget(const Look &l) : look(l)
	{
		cur = this;
		t = gtktsm_terminal_new();
		g_object_ref_sink(t);
		hosts[t] = this;
		g_object_set(G_OBJECT(t), "font", FONTS[l.font], "anti-aliasing", AA[l.aa], "subpixel-order", SUB[l.sub], nullptr);
		g_signal_connect(G_OBJECT(t), "terminal-title-changed", G_CALLBACK(on_title), (Host *)this);
		g_signal_connect(G_OBJECT(t), "terminal-stopped", G_CALLBACK(on_stopped), (Host *)this);
	}
	~Widget() { cur = this; g_object_unref(t); hosts.erase(t); if (win) cairo_surface_destroy(win); spin(); }
	bool ev(const char *sig, void *e) { cur = this; gboolean r = FALSE; g_signal_emit_by_name(t, sig, e, &r); return r; }
	bool fork() { cur = this; return gtktsm_terminal_fork(t) > 0; }
	void configure(unsigned nw, unsigned nh)
	{
		GdkEventConfigure e = {};
		e.type = GDK_CONFIGURE; e.width = nw; e.height = nh;
		w = nw; h = nh; dirty = true;
		ev("configure-event", &e);
	}
	void input(const std::string &s, bool wait = false)
	{
		cur = this;
		if (!pty || !pty->open || s.empty()) return;
		if (wait) { pty->in += s; bridge_wake(pty->bridge); return; }
		std::vector<char> b(s.begin(), s.end());
		pty->fn(pty, pty->data, b.data(), b.size());
	}
	void child_exits()
	{
		cur = this;
		if (!child_fn) return;
		g_source_remove(child_src);
		auto f = child_fn; child_fn = nullptr;
		f(fake_pid, 0, child_data);
	}
	void paint()
	{
		cairo_surface_t *s = cairo_image_surface_create(CAIRO_FORMAT_RGB24, w, h);
		cairo_t *cr = cairo_create(s);
		cairo_set_source_rgb(cr, 1, 0, 1);
		cairo_paint(cr);
		cairo_set_source_rgb(cr, 0, 0, 0);
		ev("draw", cr);
		cairo_destroy(cr);
		cairo_surface_flush(s);
		if (win) cairo_surface_destroy(win);
		win = s;
		dirty = false;
		draws++;
	}
	/* what the event loop does between two events */
	void loop() { cur = this; spin(); if (dirty && w && h) paint(); }
	uint32_t px(unsigned x, unsigned y) { return *(uint32_t *)(cairo_image_surface_get_data(win) + size_t(y) * cairo_image_surface_get_stride(win) + 4 * x) & 0xffffff; }
};

/* ---- cell size and single glyphs, from a widget that shows nothing else ---- */
struct Metrics { unsigned cw, ch; };
static const Metrics &metrics(const Look &l)
{
	static std::map<int, Metrics> m;
	auto i = m.find(l.key());
	if (i != m.end()) return i->second;
	Widget p(l);
	p.fork();
	Metrics r;
	auto first = [&](bool hor) {	/* smallest window with two columns or rows */
		unsigned lo = 1, hi = 4096;
		while (hi - lo > 1) { unsigned mid = (lo + hi) / 2; p.configure(hor ? mid : 1, hor ? 1 : mid); (hor ? p.pty->cols : p.pty->rows) >= 2 ? hi = mid : lo = mid; }
		return hi / 2;
	};
	r.cw = first(true); r.ch = first(false);
	return m[l.key()] = r;
}
struct Glyph { std::vector<uint32_t> m; std::string err; bool ink = false; };
static Widget *probe_of(const Look &l)
{
	static std::map<int, Widget *> w;
	auto &p = w[l.key()];
	if (!p) { p = new Widget(l); p->fork(); const Metrics &m = metrics(l); p->configure(6 * m.cw + 3, 3 * m.ch + 2); p->loop(); }
	return p;
}
struct GKey { uint32_t ch; unsigned w; bool b, i, u; bool operator<(const GKey &o) const { return std::tie(ch, w, b, i, u) < std::tie(o.ch, o.w, o.b, o.i, o.u); } };
static const Glyph &glyph(const Look &l, GKey k)
{
	static std::map<int, std::map<GKey, Glyph>> all;
	auto &m = all[l.key()];
	auto i = m.find(k);
	if (i != m.end()) return i->second;
	Widget *p = probe_of(l);
	const Metrics &M = metrics(l);
	Host *save = cur;
	std::string t = "\x1b[0m\x1b[H\x1b[2J\x1b[?25l\x1b[2;2H\x1b[38;2;255;255;255;48;2;0;0;0m";
	p->input("\x1b[0;38;2;255;255;255;48;2;0;0;0m\x1b[2J");
	p->loop();
	t = "\x1b[?25l\x1b[2;2H"; 
	if (k.b) t += "\x1b[1m";
	if (k.i) t += "\x1b[3m";
	if (k.u) t += "\x1b[4m";
	uint32_t u = k.ch ? k.ch : ' ';		/* utf8() has no bytes for noncharacters */
	if (u < 0x800) t += utf8(u);
	else if (u < 0x10000) t += { char(0xe0 | u >> 12), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63)) };
	else t += { char(0xf0 | u >> 18), char(0x80 | (u >> 12 & 63)), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63)) };
	p->input(t);
	p->loop();
	Glyph g;
	for (unsigned y = 0; y < M.ch; y++) for (unsigned x = 0; x < M.cw * k.w; x++) { uint32_t v = p->px(M.cw + x, M.ch + y); g.m.push_back(v); if (v) g.ink = true; }
	for (unsigned y = 0; y < 3 * M.ch && g.err.empty(); y++) for (unsigned x = 0; x < 6 * M.cw; x++) {
		bool in = x >= M.cw && x < M.cw * (1 + k.w) && y >= M.ch && y < 2 * M.ch;
		if (!in && p->px(x, y)) { g.err = fmt("U+%04x%s%s%s alone at (1,1): ink at pixel (%u,%u), outside of its cell (%ux%u pixels each)", k.ch, k.b ? " bold" : "", k.i ? " italic" : "", k.u ? " underlined" : "", x, y, M.cw, M.ch); break; }
	}
	if (k.ch > 0x20 && k.ch < 0x7f && !g.ink) g.err = fmt("U+%04x%s%s is shown without any ink", k.ch, k.b ? " bold" : "", k.i ? " italic" : "");
	cur = save;
	return m[k] = g;
}

static bool near(uint32_t p, unsigned r, unsigned g, unsigned b)
{
	auto d = [](unsigned x, unsigned y) { return x > y ? x - y : y - x; };
	return d(p >> 16 & 255, r) <= 2 && d(p >> 8 & 255, g) <= 2 && d(p & 255, b) <= 2;
}
/* What the installed font looks like, drawn by pango and cairo without the
 * widget.  The baseline is the one that fits the regular letters best. */
static std::vector<uint32_t> ink(const Look &l, GKey k, int base)
{
	const Metrics &M = metrics(l);
	static const cairo_antialias_t aas[] = { CAIRO_ANTIALIAS_DEFAULT, CAIRO_ANTIALIAS_NONE, CAIRO_ANTIALIAS_GRAY, CAIRO_ANTIALIAS_SUBPIXEL };
	static const cairo_subpixel_order_t sub[] = { CAIRO_SUBPIXEL_ORDER_DEFAULT, CAIRO_SUBPIXEL_ORDER_RGB, CAIRO_SUBPIXEL_ORDER_BGR, CAIRO_SUBPIXEL_ORDER_VRGB, CAIRO_SUBPIXEL_ORDER_VBGR };
	std::vector<uint32_t> out;
	PangoContext *ctx = pango_font_map_create_context(pango_cairo_font_map_get_default());
	pango_context_set_base_dir(ctx, PANGO_DIRECTION_LTR);
	pango_context_set_language(ctx, pango_language_get_default());
	PangoFontDescription *d = pango_font_description_from_string(FONTS[l.font]);
	pango_font_description_set_weight(d, k.b ? PANGO_WEIGHT_BOLD : PANGO_WEIGHT_NORMAL);
	pango_font_description_set_style(d, k.i ? PANGO_STYLE_ITALIC : PANGO_STYLE_NORMAL);
	pango_font_description_set_gravity(d, PANGO_GRAVITY_SOUTH);
	pango_context_set_font_description(ctx, d);
	pango_font_description_free(d);
	cairo_font_options_t *o = cairo_font_options_create();
	cairo_font_options_set_antialias(o, aas[l.aa]);
	cairo_font_options_set_subpixel_order(o, sub[l.sub]);
	pango_cairo_context_set_font_options(ctx, o);
	cairo_font_options_destroy(o);
	cairo_surface_t *s = cairo_image_surface_create(l.aa == 1 ? CAIRO_FORMAT_A1 : l.aa == 2 ? CAIRO_FORMAT_A8 : CAIRO_FORMAT_RGB24, M.cw * k.w, M.ch);
	cairo_t *cr = cairo_create(s);
	pango_cairo_update_context(cr, ctx);
	PangoLayout *lay = pango_layout_new(ctx);
	pango_layout_set_height(lay, 0);
	gunichar u = k.ch;
	char *t = g_ucs4_to_utf8(&u, 1, nullptr, nullptr, nullptr);
	if (t) {
		pango_layout_set_text(lay, t, -1);
		g_free(t);
		PangoLayoutLine *line = pango_layout_get_line_readonly(lay, 0);
		PangoRectangle r;
		pango_layout_line_get_pixel_extents(line, nullptr, &r);
		cairo_move_to(cr, -r.x, base);
		cairo_set_source_rgb(cr, 1, 1, 1);
		pango_cairo_show_layout_line(cr, line);
	}
	g_object_unref(lay);
	cairo_destroy(cr);
	g_object_unref(ctx);
	cairo_surface_flush(s);
	for (unsigned y = 0; y < M.ch; y++) for (unsigned x = 0; x < M.cw * k.w; x++) {
		uint8_t *row = cairo_image_surface_get_data(s) + y * cairo_image_surface_get_stride(s);
		uint32_t v;
		if (l.aa == 1) v = row[x / 8] & (1 << (x % 8)) ? 0xffffff : 0;
		else if (l.aa == 2) v = row[x] * 0x10101u;
		else v = ((uint32_t *)row)[x] & 0xffffff;
		out.push_back(v);
	}
	cairo_surface_destroy(s);
	return out;
}
static int baseline(const Look &l)
{
	static std::map<int, int> done;
	auto i = done.find(l.key());
	if (i != done.end()) return i->second;
	uint64_t best = ~0ull; int at = 0;
	for (unsigned b = 0; b <= metrics(l).ch; b++) {
		uint64_t miss = 0;
		for (uint32_t c : { 'R', 'M', 'g', 'x' }) {
			auto &m = glyph(l, GKey{ c, 1, false, false, false }).m;
			auto k = ink(l, GKey{ c, 1, false, false, false }, b);
			for (size_t n = 0; n < m.size(); n++) miss += m[n] != k[n];
		}
		if (miss < best) { best = miss; at = b; }
	}
	return done[l.key()] = at;
}
static std::string as_font(const Look &l, GKey k)
{
	static std::map<int, std::map<GKey, std::string>> done;
	static std::map<int, std::pair<unsigned, unsigned>> band;	/* rows of the underline */
	auto i = done[l.key()].find(k);
	if (i != done[l.key()].end()) return i->second;
	auto &g = glyph(l, k).m;
	const Metrics &M = metrics(l);
	std::vector<uint32_t> want = k.ch ? ink(l, k, baseline(l)) : std::vector<uint32_t>(g.size());
	std::string e, name = fmt("U+%04x%s%s%s in font %s, anti-aliasing %s: ", k.ch, k.b ? " bold" : "", k.i ? " italic" : "", k.u ? " underlined" : "", FONTS[l.font], AA[l.aa]);
	if (k.u) {
		if (!band.count(l.key())) {
			auto &a = glyph(l, GKey{ 'R', 1, false, false, false }).m, &b = glyph(l, GKey{ 'R', 1, false, false, true }).m;
			unsigned lo = M.ch, hi = 0;
			for (unsigned y = 0; y < M.ch; y++) for (unsigned x = 0; x < M.cw; x++) if (a[y * M.cw + x] != b[y * M.cw + x]) { lo = std::min(lo, y); hi = std::max(hi, y + 1); }
			band[l.key()] = { lo, hi };
			if (lo >= hi || hi - lo > M.ch / 4 + 1 || lo < M.ch / 2) e = name + "no line below the text";
		}
		auto b = band[l.key()];
		for (unsigned y = b.first; y < b.second; y++) for (unsigned x = 0; x < M.cw * k.w; x++) want[y * M.cw * k.w + x] = 0xffffff;
	}
	for (size_t n = 0; n < g.size() && e.empty(); n++) if (!near(g[n], want[n] >> 16 & 255, want[n] >> 8 & 255, want[n] & 255))
		e = name + fmt("pixel (%zu,%zu) has coverage %06x, the font has %06x", n % (M.cw * k.w), n / (M.cw * k.w), g[n], want[n]);
	return done[l.key()][k] = e;
}
/* bold, italic, both: four different faces (true of every font used here) */
static std::string faces(const Look &l)
{
	static std::map<int, std::string> done;
	auto i = done.find(l.key());
	if (i != done.end()) return i->second;
	std::string e;
	auto differ = [&](bool b1, bool i1, bool b2, bool i2) {
		std::vector<uint32_t> x, y;
		for (uint32_t c : { 'R', 'M', 'g' }) { auto &p = glyph(l, GKey{ c, 1, b1, i1, false }).m; x.insert(x.end(), p.begin(), p.end()); auto &q = glyph(l, GKey{ c, 1, b2, i2, false }).m; y.insert(y.end(), q.begin(), q.end()); }
		if (x == y && e.empty()) e = fmt("letters look the same with bold=%d italic=%d and with bold=%d italic=%d", b1, i1, b2, i2);
	};
	for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) differ(a & 1, a & 2, b & 1, b & 2);
	auto &n = glyph(l, GKey{ 'R', 1, false, false, false }).m, &u = glyph(l, GKey{ 'R', 1, false, false, true }).m;
	const Metrics &m = metrics(l);
	bool line = false;
	for (unsigned y = 0; y < m.ch; y++) { bool full = true; for (unsigned x = 0; x < m.cw; x++) full = full && u[y * m.cw + x] == 0xffffff; line = line || full; }
	if (e.empty() && (n == u || !line)) e = "underlined letters have no line";
	return done[l.key()] = e;
}

/* ---- the model: bytes and events to what must be seen ---- */
struct GM {
	Mod M{ true };
	Look look;
	unsigned w = 0, h = 0;
	unsigned maxsb = 2000;
	bool handled = false;
	bool pty = true, face = true, configured = false, hl = false;
	bool fuzzy = false;	/* where the selection is went beyond what is specified (C19) */
	int sel = 0; int64_t st = 0, sx = 0, sy = 0;
	size_t dropped = 0;	/* output that nobody was there to take */
	std::string out;
	size_t outpos = 0;
	std::string wait;	/* written by the child, but nobody read it yet */
	explicit GM(const Look &l) : look(l) { M.s.set_max(maxsb); }
	unsigned cols() { return face ? std::max(1u, w / metrics(look).cw) : 1; }
	unsigned rows() { return face ? std::max(1u, h / metrics(look).ch) : 1; }
	void check_sel(const Op &o)
	{
		if (!M.s.sel) { fuzzy = false; return; }
		if (M.s.flags & F_ALT || M.s.mt || M.s.mb != M.s.h - 1) fuzzy = true;
		if (o.k == O_IN && (M.v->st != Vte::GROUND || M.v->need)) fuzzy = true;
		if (o.k == O_IN) for (unsigned char ch : o.s) if ((ch != '\r' && ch != '\n' && (ch < 0x20 || ch == 0x7f)) || ch == 0xc2) fuzzy = true;
	}
	/* the event loop runs, or the child ends: all that it wrote arrives */
	void loop()
	{
		if (wait.empty()) return;
		Op o = IN(wait);
		wait.clear();
		apply(o);
	}
	static unsigned cell(int64_t v, unsigned c) { return v < 0 ? 0 : v / c; }
	void apply(const Op &o)
	{
		const Metrics &m = metrics(look);
		if (o.k == O_IN && pty && (o.v(0) || !wait.empty())) { wait += o.s; return; }
		if (o.k == O_VHARD) loop();
		bool had = M.s.sel;
		if (had) check_sel(o);
		apply1(o, m);
		if (!had) fuzzy = false;
		check_sel(o.k == O_IN && had ? o : Op(O_DRAW));
	}
	void start(int64_t x, int64_t y, const Metrics &m) { M.s.sel_start(cell(x, m.cw), cell(y, m.ch)); fuzzy = false; }
	void apply1(const Op &o, const Metrics &m)
	{
		switch (o.k) {
		case O_IN: if (pty) M.apply(o); break;
		case O_RESIZE: w = o.v(0); h = o.v(1); M.s.resize(cols(), rows()); configured = true; break;
		case O_MAXSB: M.s.set_max(maxsb = o.v(0)); break;
		case O_PAL: {
			int n = o.v(1);
			if (o.v(0) == 3) { hl = n; break; }
			if (o.v(0) == 0) look.font = n; else if (o.v(0) == 1) look.aa = n; else look.sub = n;
			if (configured && face) M.s.resize(cols(), rows());
			break;
		}
		case O_KEY: {
			bool sh = o.v(1) == 1;
			handled = true;
			if (sh && o.v(0) == 0xff52) M.s.sb_up(1);
			else if (sh && o.v(0) == 0xff54) M.s.sb_down(1);
			else if (sh && o.v(0) == 0xff55) M.s.sb_up(M.s.h);
			else if (sh && o.v(0) == 0xff56) M.s.sb_down(M.s.h);
			else {
				uint32_t u = xkb_keysym_to_utf32(o.v(0));
				if (M.v->key(o.v(0), 0, o.v(1), u ? u : 0xffffffff)) M.s.sb_reset();
				else handled = false;
			}
			break;
		}
		case O_MOUSE: {		/* kind x y time button */
			int64_t x = o.v(1), y = o.v(2);
			if (!face) break;
			if (o.v(0) == 4) {
				if (!sel) break;
				if (sel == 1) { if (llabs(sx - x) > 3 || llabs(sy - y) > 3) { sel = 2; start(sx, sy, m); } }
				else M.s.sel_target(cell(x, m.cw), cell(y, m.ch));
				break;
			}
			if (o.v(4) != 1) break;
			switch (o.v(0)) {
			case 0: sel = 1; st = o.v(3); sx = x; sy = y; break;
			case 1: case 2: sel = 2; start(x, y, m); break;
			case 3: if (sel == 1 && st + 100 > o.v(3)) M.s.sel = false; sel = 0; break;
			}
			break;
		}
		case O_VHARD: pty = false; break;
		case O_VRESET:
			if (!face) { face = true; if (configured) M.s.resize(cols(), rows()); }
			pty = true;
			break;
		}
		if (pty) out += M.v->out.substr(outpos);
		outpos = M.v->out.size();
	}
};
static void send(Widget &W, const Op &o, Look &look)
{
	switch (o.k) {
	case O_IN: W.input(o.s, o.v(0) || (W.pty && !W.pty->in.empty())); break;
	case O_RESIZE: W.configure(o.v(0), o.v(1)); break;
	case O_MAXSB: cur = &W; g_object_set(G_OBJECT(W.t), "sb-size", (guint)o.v(0), nullptr); break;
	case O_PAL:
		cur = &W;
		if (o.v(0) == 0) g_object_set(G_OBJECT(W.t), "font", FONTS[o.v(1)], nullptr);
		else if (o.v(0) == 3) g_object_set(G_OBJECT(W.t), "show-dirty", (gboolean)(o.v(1) != 0), nullptr);
		else if (o.v(0) == 1) g_object_set(G_OBJECT(W.t), "anti-aliasing", AA[o.v(1)], nullptr);
		else g_object_set(G_OBJECT(W.t), "subpixel-order", SUB[o.v(1)], nullptr);
		break;
	case O_KEY: {
		GdkEventKey e = {};
		e.type = GDK_KEY_PRESS; e.keyval = keymap_key = o.v(0);
		unsigned m = o.v(1);
		e.state = (m & 1 ? GDK_SHIFT_MASK : 0) | (m & 2 ? GDK_LOCK_MASK : 0) | (m & 4 ? GDK_CONTROL_MASK : 0) | (m & 8 ? GDK_MOD1_MASK : 0) | (m & 16 ? GDK_MOD4_MASK : 0);
		W.handled = W.ev("key-press-event", &e);
		e.type = GDK_KEY_RELEASE;
		W.ev("key-press-event", &e);	/* not a press: nothing may happen */
		break;
	}
	case O_MOUSE:
		if (o.v(0) == 4) {
			GdkEventMotion e = {};
			e.type = GDK_MOTION_NOTIFY; e.x = o.v(1); e.y = o.v(2); e.time = o.v(3);
			W.ev("motion-notify-event", &e);
		} else {
			GdkEventButton e = {};
			e.type = o.v(0) == 0 ? GDK_BUTTON_PRESS : o.v(0) == 1 ? GDK_2BUTTON_PRESS : o.v(0) == 2 ? GDK_3BUTTON_PRESS : GDK_BUTTON_RELEASE;
			e.x = o.v(1); e.y = o.v(2); e.time = o.v(3); e.button = o.v(4);
			W.ev(o.v(0) == 3 ? "button-release-event" : "button-press-event", &e);
		}
		break;
	case O_DRAW: W.dirty = true; break;
	case O_GETTERS: cur = &W; gtktsm_terminal_kill(W.t, o.v(0)); break;
	case O_VHARD: W.child_exits(); break;
	case O_VRESET: W.fork(); break;
	}
	(void)look;
}

static unsigned blend(unsigned f, unsigned b, unsigned m) { return (f * m + b * (255 - m) + 127) / 255; }
static std::string compare(Widget &W, GM &G, Result &r)
{
	const Metrics &m = metrics(G.look);
	if (!G.face) {
		const Attr &da = G.M.v->def;
		for (unsigned Y = 0; Y < W.h; Y++) for (unsigned X = 0; X < W.w; X++) if (!near(W.px(X, Y), da.br, da.bg, da.bb)) return fmt("pixel (%u,%u) is %06x although nothing was started yet", X, Y, W.px(X, Y));
		return "";
	}
	std::string fe = faces(G.look);
	if (!fe.empty()) return fe;
	auto d = G.M.s.draw();
	unsigned sw = G.M.s.w, sh = G.M.s.h;
	for (unsigned y = 0; y < sh; y++) for (unsigned x = 0; x < sw; x++) {
		const DCell &c = d[size_t(y) * sw + x];
		if (!c.w) continue;
		if (!c.attr_known || !c.text_known || c.ch & 0x80000000u) continue;
		if (c.ch && c.w != width_of(c.ch)) continue;
		if (c.w == 2 && (x + 1 >= sw || d[size_t(y) * sw + x + 1].w)) continue;
		if (x && d[size_t(y) * sw + x - 1].w == 2) continue;	/* halves of overwritten wide characters */
		unsigned fr = c.a.fr, fg = c.a.fg, fb = c.a.fb, br = c.a.br, bg = c.a.bg, bb = c.a.bb;
		if (c.a.inverse) { std::swap(fr, br); std::swap(fg, bg); std::swap(fb, bb); }
		const Glyph &g = glyph(G.look, GKey{ c.ch, c.w, c.a.bold, c.a.italic, c.a.underline });
		if (!g.err.empty()) return g.err;
		std::string fe = as_font(G.look, GKey{ c.ch, c.w, c.a.bold, c.a.italic, c.a.underline });
		if (!fe.empty()) return fe;
		r.evals++;
		r.n["cells_compared"]++;
		bool either = G.fuzzy && G.M.s.sel, turned = false;
		for (unsigned j = G.hl; j + G.hl < m.ch; j++) for (unsigned i = G.hl; i + G.hl < m.cw * c.w; i++) {
			unsigned X = x * m.cw + i, Y = y * m.ch + j;
			if (X + G.hl >= W.w || Y + G.hl >= W.h) continue;
			uint32_t k = g.m[j * m.cw * c.w + i];
			unsigned er = blend(fr, br, k >> 16 & 255), eg = blend(fg, bg, k >> 8 & 255), eb = blend(fb, bb, k & 255), p = W.px(X, Y);
			if (near(p, er, eg, eb)) continue;
			if (getenv("TSM_DUMP")) for (unsigned jj = 0; jj < m.ch; jj++) { for (unsigned ii = 0; ii < m.cw * c.w; ii++) fprintf(stderr, "%02x/%02x ", g.m[jj * m.cw * c.w + ii] & 255, W.px(x * m.cw + ii, y * m.ch + jj) & 255); fprintf(stderr, "\n"); }
			if (either && !turned) { turned = true; std::swap(fr, br); std::swap(fg, bg); std::swap(fb, bb); i = j = G.hl; i--; continue; }
			return fmt("cell (%u,%u) U+%04x %s: pixel (%u,%u) is %06x, expected %02x%02x%02x", x, y, c.ch, attr_str(c.a).c_str(), i, j, p, er, eg, eb);
		}
	}
	const Attr &da = G.M.v->def;
	for (unsigned Y = 0; Y < W.h; Y++) for (unsigned X = Y < sh * m.ch ? sw * m.cw : 0; X < W.w; X++) {
		r.n["padding_pixels"]++;
		if (!near(W.px(X, Y), da.br, da.bg, da.bb)) return fmt("padding pixel (%u,%u) is %06x, expected %02x%02x%02x", X, Y, W.px(X, Y), da.br, da.bg, da.bb);
	}
	return "";
}

static std::string props(Widget &W, GM &G)
{
	cur = &W;
	char *f = nullptr, *a = nullptr, *s = nullptr;
	guint sb = 0;
	gboolean hl = FALSE;
	g_object_get(G_OBJECT(W.t), "font", &f, "anti-aliasing", &a, "subpixel-order", &s, "sb-size", &sb, "show-dirty", &hl, nullptr);
	std::string e;
	auto str = [&](const char *n, char *got, const char *want) { if (e.empty() && (!got || strcmp(got, want))) e = fmt("property %s is \"%s\", expected \"%s\"", n, got ? got : "(null)", want); g_free(got); };
	str("font", f, FONTS[G.look.font]); str("anti-aliasing", a, AA[G.look.aa]); str("subpixel-order", s, SUB[G.look.sub]);
	if (e.empty() && sb != G.maxsb) e = fmt("property sb-size is %u, expected %u", sb, G.maxsb);
	if (e.empty() && !!hl != G.hl) e = "property show-dirty has a wrong value";
	return e;
}

static void eval_gtk(const Case &c, Result &r, bool pic)
{
	g_log_set_default_handler(on_log, nullptr);
	Look l;
	l.font = c.p[0]; l.aa = c.p[1]; l.sub = c.p[2];
	metrics(l); probe_of(l);
	/* everything that is kept between cases exists before the accounting starts */
	for (auto &o : c.ops) if (o.k == O_PAL && o.v(0) < 3) { Look k = l; (o.v(0) == 0 ? k.font : o.v(0) == 1 ? k.aa : k.sub) = o.v(1); l = k; probe_of(l); }
	l.font = c.p[0]; l.aa = c.p[1]; l.sub = c.p[2];
	log_err.clear();
	int ptys0 = ptys;
	{
		Widget W(l);
		GM G(l);
		bool late = c.p.size() > 3 && c.p[3];
		if (late) G.pty = G.face = false;
		else if (!W.fork()) { r.fail("fork", "gtktsm_terminal_fork() failed"); return; }
		size_t titles = 0, osc = 0;
		unsigned stopped = 0;
		/* the picture is C44, everything else C45 */
		auto tell = [&](const char *k, const std::string &t) { if (!pic) r.fail(k, t); return !pic; };
		size_t every = c.p.size() > 4 ? std::max<int64_t>(1, c.p[4]) : 1;
		bool lazy_end = c.p.size() > 5 && c.p[5];
		std::vector<int> sigs;
		shl_pty *sig_pty = nullptr;
		for (size_t i = 0; i < c.ops.size(); i++) {
			const Op &o = c.ops[i];
			std::string at = fmt("after operation %zu ", i + 1) + op_str(o) + ": ";
			if (o.k == O_VHARD && !G.pty) continue;
			bool had = G.pty;
			G.apply(o);
			send(W, o, l);
			if (o.k == O_KEY && W.handled != G.handled) { if (tell("handled", at + (W.handled ? "the key was taken although it does nothing" : "the key was not taken although it does something"))) return; }
			if (G.pty && W.fork()) { r.fail("fork", at + "a second child was started"); return; }
			if (sig_pty != W.pty) { sigs.clear(); sig_pty = W.pty; }
			if (o.k == O_GETTERS && G.pty && o.v(0) > 0) sigs.push_back(o.v(0));
			if (lazy_end && i + 1 == c.ops.size()) break;	/* the widget goes away before the loop runs */
			if (o.k == O_VHARD && had) stopped++;
			if ((i + 1) % every && i + 1 != c.ops.size()) continue;
			W.loop();
			G.loop();
			r.n["operations"]++;
			r.n[std::string("op_") + op_name(o.k)]++;
			r.evals += 4;
			if (!log_err.empty()) { r.fail("log", at + "message " + log_err); return; }
			if (W.stopped != stopped) { if (tell("stopped", at + fmt("terminal-stopped seen %u times, expected %u", W.stopped, stopped))) return; }
			if (W.out != G.out) { if (tell("out", at + "the child was sent \"" + esc_bytes(W.out) + "\", expected \"" + esc_bytes(G.out) + "\"")) return; }
			if (W.pty && W.pty->signals != sigs) { if (tell("signal", at + fmt("the child got %zu signals, expected %zu (or others)", W.pty->signals.size(), sigs.size()))) return; }
			std::string pe = props(W, G);
			if (!pe.empty()) { if (tell("property", at + pe)) return; }
			if (W.pty && W.pty->flushed != W.pty->out.size()) { if (tell("flush", at + "bytes for the child wait although the event loop is idle")) return; }
			std::vector<std::string> exp;
			for (size_t k = osc; k < G.M.v->osc.size(); k++) if (!G.M.v->osc[k].compare(0, 2, "2;")) exp.push_back(G.M.v->osc[k].substr(2));
			osc = G.M.v->osc.size();
			if (W.titles.size() - titles != exp.size()) { if (tell("title", at + fmt("%zu title changes, expected %zu", W.titles.size() - titles, exp.size()))) return; }
			for (auto &e : exp) if (W.titles[titles++] != e) { if (tell("title", at + "title \"" + esc_bytes(W.titles[titles - 1]) + "\", expected \"" + esc_bytes(e) + "\"")) return; }
			r.n["titles"] += exp.size();
			if (!G.configured) continue;
			if (W.pty && (W.pty->cols != G.M.s.w || W.pty->rows != G.M.s.h)) { if (tell("size", at + fmt("the child's terminal has %ux%u cells, expected %ux%u", W.pty->cols, W.pty->rows, G.M.s.w, G.M.s.h))) return; }
			if (!pic) continue;
			std::string e = compare(W, G, r);
			if (!log_err.empty()) { r.fail("log", at + "message " + log_err); return; }
			if (!e.empty()) { r.fail("picture", at + e); return; }
		}
		r.n["pictures"] += W.draws;
		r.n["bytes_to_child"] += W.out.size();
		if (!pic) { std::string t = W.out; for (auto &x : W.titles) t += "\1" + x; t += fmt("%u %u %u", W.stopped, W.w, W.h); r.state = hash_str(t.c_str()); }
		else if (W.win) r.state = hash_bytes(cairo_image_surface_get_data(W.win), size_t(cairo_image_surface_get_height(W.win)) * cairo_image_surface_get_stride(W.win));
	}
	if (ptys != ptys0) r.fail("leak", "the pseudo terminal outlives the widget");
}

static void eval44(const Case &c, Result &r) { eval_gtk(c, r, true); }
static void eval45(const Case &c, Result &r) { eval_gtk(c, r, false); }

static void gen_gtk(uint64_t seed, uint64_t index, const char *id, Case &c)
{
	bool talk = std::string(id) == "C45";
	Gen g(mix(mix(seed, hash_str(id)), index));
	auto &r = g.r;
	g.vte = true;
	Look l;
	l.font = r.w({ 6, 3, 3, 3, 1 }); l.aa = r.below(4); l.sub = r.p(0.7) ? 0 : r.below(5);
	bool late = r.p(0.05);
	c.p = { l.font, l.aa, l.sub, late, r.p(0.6) ? 1 : r.range(2, 6), r.p(0.3) };
	GM G(l);
	if (late) G.pty = G.face = false;
	g.s = &G.M.s;
	int64_t tm = 1000;
	double waits = r.p(0.5) ? 0 : r.pick(std::vector<double>{ 0.02, 0.2, 0.9 });
	auto add = [&](Op o) {
		if (o.k == O_IN && r.p(waits)) o.a = { 1 };	/* written while the event loop is busy */
		c.ops.push_back(o); G.apply(o);
		if (c.ops.size() % c.p[4] == 0) G.loop();
	};
	auto size = [&] {
		const Metrics &m = metrics(G.look);
		if (r.p(talk ? 0.2 : 0.03)) return Op(O_RESIZE, { r.range(1, 200) * m.cw + r.range(-1, 1) + 1, r.range(1, 60) * m.ch + r.range(-1, 1) });
		int64_t w = r.p(0.1) ? r.range(1, 30) : r.range(1, 24) * m.cw + r.range(-1, 9), h = r.p(0.1) ? r.range(1, 30) : r.range(1, 9) * m.ch + r.range(-1, 9);
		return Op(O_RESIZE, { std::max<int64_t>(1, w), std::max<int64_t>(1, h) });
	};
	auto mx = [&](bool vert) -> int64_t { int64_t n = vert ? G.h : G.w; return r.p(0.1) ? r.range(-60, -1) : r.p(0.1) ? n + r.range(0, 100) : r.range(0, n ? n - 1 : 0); };
	if (!late || r.p(0.8)) add(size());
	if (late) { if (r.p(0.3)) add(Op(O_PAL, { 0, (int64_t)r.below(5) })); if (r.p(0.3)) add(IN("lost")); add(Op(O_VRESET)); if (!G.configured) add(size()); }
	int n = r.range(5, 40);
	while ((int)c.ops.size() < n) {
		int wk = talk ? 40 : 8, wo = talk ? 6 : 2;
		switch (r.w({ 60, 6, wk, 8, 2, 2, 3, 1, wo, 1 })) {
		case 0: { Op o = gen_any(g); if (o.k == O_IN) add(o); else if (o.k == O_WRITE || o.k == O_MOVETO) add(IN(g.text(r.range(1, 8)))); break; }
		case 1: add(size()); break;
		case 2: {
			static const int64_t sc[] = { 0xff52, 0xff54, 0xff55, 0xff56 };
			if (r.p(0.6)) add(Op(O_KEY, { sc[r.below(4)], r.p(0.85) ? 1 : (int64_t)r.below(32) }));
			else add(Op(O_KEY, { r.pick(VI{ r.range(0x20, 0x7e), r.range(0xff00, 0xffff), 0xe9, 0x6c1, 0xff0d, 0xff08, 0xfe20, 0x20ac, 0x10020ac, 0x101f600, 0x1000000 + r.range(0x100, 0x10ffff) }), r.p(0.5) ? 0 : (int64_t)r.below(32) }));
			break;
		}
		case 3: {
			tm += r.pick(VI{ 1, 50, 99, 100, 101, 500 });
			int64_t b = r.p(0.9) ? 1 : r.range(2, 5);
			int64_t x = mx(false), y = mx(true);
			add(Op(O_MOUSE, { 0, x, y, tm, b }));
			if (r.p(0.15)) { add(Op(O_MOUSE, { 1, x, y, tm + 1, b })); if (r.p(0.4)) add(Op(O_MOUSE, { 2, x, y, tm + 2, b })); }
			int k = r.below(5);
			while (k--) { if (r.p(0.2)) { x += r.range(-4, 4); y += r.range(-4, 4); } else { x = mx(false); y = mx(true); } add(Op(O_MOUSE, { 4, x, y, ++tm, 1 })); if (r.p(0.15)) add(IN(g.text(3) + "\r\n")); }
			tm += r.pick(VI{ 1, 50, 99, 100, 101, 500 });
			if (r.p(0.9)) add(Op(O_MOUSE, { 3, x, y, tm, b }));
			break;
		}
		case 4: { int p = r.w({ 3, 2, 1, 2 }); add(Op(O_PAL, { p, (int64_t)r.below(p == 0 ? 5 : p == 1 ? 4 : p == 2 ? 5 : 2) })); break; }
		case 5: add(Op(O_MAXSB, { r.pick(VI{ 0, 1, 2, 5, 20, 2000 }) })); break;
		case 6: add(Op(O_DRAW)); break;
		case 7: if (G.pty) {
			if (r.p(0.5)) { Op o = IN(g.text(r.range(1, 8)) + r.pick(VS{ "", "\x1b]2;end\x07", "\x1b[c", "\r\n" })); o.a = { 1 }; if (r.p(0.1)) for (int k = r.range(1, 30); k--;) o.s += g.text(80) + "\r\n"; c.ops.push_back(o); G.apply(o); }
			add(Op(O_VHARD)); if (r.p(0.3)) add(Op(O_KEY, { 'a', 0 })); add(Op(O_VRESET)); } break;
		case 9: add(Op(O_GETTERS, { r.pick(VI{ 1, 2, 15, 9, 0, -3, 28 }) })); break;
		default: add(IN("\x1b]" + std::string(r.p(0.7) ? "2;" : r.pick(VS{ "0;", "2", "22;", "1;", "" })) + g.text(r.below(8)) + (r.p(0.5) ? "\x07" : "\x1b\\"))); break;
		}
	}
}

static void gen44(uint64_t seed, uint64_t index, bool, Case &c) { gen_gtk(seed, index, "C44", c); }
static void gen45(uint64_t seed, uint64_t index, bool, Case &c) { gen_gtk(seed, index, "C45", c); }
#include "gtkapp.inc"
extern const CheckDef gtk_checks[];
const CheckDef gtk_checks[] = { { "C44", 3000, 200000, gen44, eval44 }, { "C45", 12000, 800000, gen45, eval45 }, { "C48", 5000, 300000, gen48, eval48 }, { nullptr, 0, 0, nullptr, nullptr } };

/* C48: the example program around the widget: command line, windows, children.
 * The real gtktsm.c, gtktsm-app.c and gtktsm-win.c run in a process of their own
 * for every case, on stand-ins for GTK's application and window classes; a script
 * plays the user, the children and later invocations from within the main loop. */
#include <sys/wait.h>
#include <dirent.h>
#include <fstream>
#include <glib/gprintf.h>
extern "C" int gtktsm_main(int argc, char **argv);
extern "C" pid_t gtktsm_terminal_fork(GtkTsmTerminal *);
extern char **environ;

enum { A_RUN, A_ACTIVATE, A_OUT, A_EXIT, A_CLOSE, A_ENV, A_NOEXEC };	/* first argument of an operation */
struct Spawned { bool execd = false, on = false; std::string path; VS argv, env; int status = 0; };
struct Win {
	void *p = nullptr, *term = nullptr;
	bool destroyed = false, gone = false, term_gone = false, shown = false, realised = false, black = false, in_destroy = false, titled = false;
	unsigned presents = 0;
	std::string title;
	GApplication *app = nullptr;
	Host host;
	std::vector<Spawned> kids;
};
static bool exec_fails;
static pid_t case_pid;
static int exec_pipe = -1;
static std::vector<Win *> wins;		/* in the order of their creation */
static std::string printed, printed_err;
static std::string app_err;		/* first thing that must never happen */
static GApplication *the_app;
static bool app_gone;
static unsigned foreign_forks;
static Win *win_of(void *p) { for (auto w : wins) if (w->p == p && !w->gone) return w; return nullptr; }
static Win *win_of_term(void *t) { for (auto w : wins) if (w->term == t && !w->term_gone) return w; return nullptr; }
static void never_ok(const std::string &s) { if (app_err.empty()) app_err = s; }

static void put_str(std::string &o, const std::string &s) { o += s; o += '\0'; }
static void record_exec(const char *path, char *const argv[], char *const envp[])
{
	if (getpid() == case_pid) { never_ok("the program replaces itself by a shell"); return; }
	std::string o = "E";
	put_str(o, path ? path : "(null)");
	size_t n = 0; while (argv && argv[n]) n++;
	put_str(o, std::to_string(n));
	for (size_t i = 0; i < n; i++) put_str(o, argv[i]);
	for (; envp && *envp; envp++) put_str(o, *envp);
	for (size_t i = 0; i < o.size(); ) { ssize_t l = write(exec_pipe, o.data() + i, o.size() - i); if (l <= 0) break; i += l; }
}
extern "C" {
int vt_execve(const char *p, char *const a[], char *const e[])
{
	record_exec(p, a, e);
	if (exec_fails) { errno = ENOENT; return -1; }
	_exit(0);
}
int vt_execv(const char *p, char *const a[]) { return vt_execve(p, a, environ); }
int vt_execvp(const char *p, char *const a[]) { return vt_execve(p, a, environ); }
int vt_execvpe(const char *p, char *const a[], char *const e[]) { return vt_execve(p, a, e); }
/* called by the program in place of gtktsm_terminal_fork() */
pid_t vt_gtktsm_terminal_fork(GtkTsmTerminal *t)
{
	Win *w = win_of_term(t);
	Host *save = cur;
	static Host nowhere;
	cur = w ? &w->host : &nowhere;
	if (!w) foreign_forks++;
	pid_t r = gtktsm_terminal_fork(t);
	cur = save;
	return r;
}
}
/* the pseudo terminal's stand-in starts a real child in this mode */
static int app_fork()
{
	int f[2];
	if (pipe(f)) abort();
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) abort();
	if (!pid) {
		close(f[0]);
		exec_pipe = f[1];
		setitimer(ITIMER_PROF, nullptr, nullptr);
		alarm(10);
		int n = open("/dev/null", O_WRONLY);
		if (n >= 0) dup2(n, 2);
		return 0;
	}
	close(f[1]);
	Spawned s;
	std::string t;
	char b[4096];
	for (ssize_t l; (l = read(f[0], b, sizeof b)) > 0 || (l < 0 && errno == EINTR); ) if (l > 0) t.append(b, l);
	close(f[0]);
	while (waitpid(pid, &s.status, 0) < 0 && errno == EINTR);
	if (!t.empty() && t.back() == 'W') { s.on = true; t.pop_back(); }
	if (!t.empty() && t[0] == 'E') {
		VS v;
		for (size_t i = 1; i < t.size(); ) { size_t e = t.find('\0', i); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(i, e - i)); i = e + 1; }
		s.execd = true;
		if (v.size() > 1) { s.path = v[0]; size_t n = atoi(v[1].c_str()); for (size_t i = 2; i < v.size(); i++) (i < 2 + n ? s.argv : s.env).push_back(v[i]); }
	}
	for (auto w : wins) if (&w->host == cur) w->kids.push_back(s);
	return pid;
}

extern "C" {
/* GTK's application */
GType gtk_application_get_type(void) { static GType t = make_type("StandInApplication", G_TYPE_APPLICATION, sizeof(GtkApplicationClass), sizeof(GtkApplication), false); return t; }
/* containers and windows */
/* weak references end with dispose(), data of an object with finalize() */
static void watch_end(void *o, bool *gone) { g_object_set_data_full(G_OBJECT(o), "verif-end", gone, [](gpointer d) { *(bool *)d = true; }); }
static void base_realize(GtkWidget *w) { if (Win *x = win_of(w)) { if (x->realised) never_ok("a window is realised twice"); x->realised = true; } }
static void win_set_app(Win *w, GApplication *a)
{
	if (w->app == a) return;
	if (w->app) { g_application_release(w->app); g_object_unref(w->app); }
	w->app = a;
	if (a) { g_object_ref(a); g_application_hold(a); }
}
static void sw_init(GTypeInstance *i, gpointer)
{
	Win *w = new Win();
	w->p = i;
	wins.push_back(w);
	g_object_ref_sink(G_OBJECT(i));	/* GTK keeps every top-level window */
	watch_end(i, &w->gone);
}
static void sw_set(GObject *o, guint, const GValue *v, GParamSpec *) { if (Win *w = win_of(o)) win_set_app(w, (GApplication *)g_value_get_object(v)); }
static void sw_get(GObject *o, guint, GValue *v, GParamSpec *) { Win *w = win_of(o); g_value_set_object(v, w ? w->app : nullptr); }
static GObjectClass *sw_parent;
static void sw_dispose(GObject *o)
{
	Win *w = win_of(o);
	if (w && !w->in_destroy) {
		w->in_destroy = w->destroyed = true;
		g_signal_emit_by_name(o, "destroy");
		win_set_app(w, nullptr);
		if (w->term && !w->term_gone) { void *t = w->term; g_object_run_dispose(G_OBJECT(t)); g_object_unref(t); }
		g_object_unref(o);	/* the reference of the list of windows */
	}
	sw_parent->dispose(o);
}
static void sw_class(gpointer k, gpointer)
{
	sw_parent = (GObjectClass *)g_type_class_peek_parent(k);
	G_OBJECT_CLASS(k)->set_property = sw_set;
	G_OBJECT_CLASS(k)->get_property = sw_get;
	G_OBJECT_CLASS(k)->dispose = sw_dispose;
	((GtkWidgetClass *)k)->realize = base_realize;
	g_object_class_install_property(G_OBJECT_CLASS(k), 1, g_param_spec_object("application", "", "", gtk_application_get_type(), G_PARAM_READWRITE));
}
GType gtk_container_get_type(void) { static GType t = make_type("StandInContainer", gtk_widget_get_type(), sizeof(GtkContainerClass), sizeof(GtkContainer), false); return t; }
GType gtk_bin_get_type(void) { static GType t = make_type("StandInBin", gtk_container_get_type(), sizeof(GtkBinClass), sizeof(GtkBin), false); return t; }
GType gtk_window_get_type(void)
{
	static GType t;
	if (!t) {
		GTypeInfo ti = {};
		ti.class_size = sizeof(GtkWindowClass); ti.instance_size = sizeof(GtkWindow);
		ti.class_init = sw_class; ti.instance_init = sw_init;
		t = g_type_register_static(gtk_bin_get_type(), "StandInWindow", &ti, (GTypeFlags)0);
	}
	return t;
}
void gtk_container_add(GtkContainer *c, GtkWidget *x)
{
	Win *w = win_of(c);
	if (!w || w->term || !G_TYPE_CHECK_INSTANCE_TYPE(x, gtktsm_terminal_get_type())) { never_ok("something else than one terminal is put into a window"); return; }
	g_object_ref_sink(x);
	w->term = x;
	w->host.t = (GtkTsmTerminal *)x;
	hosts[x] = &w->host;
	watch_end(x, &w->term_gone);
	g_object_set_data_full(G_OBJECT(x), "verif-host", x, [](gpointer o) { hosts.erase(o); });
}
static void realise(Win *w) { if (!w->realised) ((GtkWidgetClass *)G_OBJECT_GET_CLASS(w->p))->realize((GtkWidget *)w->p); }
void gtk_widget_show(GtkWidget *x) { if (Win *w = win_of_term(x)) w->shown = true; else if (Win *w = win_of(x)) { realise(w); w->presents++; } }
void gtk_widget_show_now(GtkWidget *x) { gtk_widget_show(x); }
void gtk_widget_show_all(GtkWidget *x) { if (Win *w = win_of(x)) w->shown = true; gtk_widget_show(x); }
void gtk_window_present(GtkWindow *x) { if (Win *w = win_of(x)) { if (w->destroyed) never_ok("a destroyed window is shown"); realise(w); w->presents++; } else never_ok("something that is no window is shown"); }
void gtk_window_set_title(GtkWindow *x, const gchar *t) { if (Win *w = win_of(x)) { w->title = t ? t : "(null)"; w->titled = true; } else never_ok("the title of something that is no window is set"); }
void gtk_window_set_default_size(GtkWindow *x, gint w, gint h) { if (!win_of(x) || w <= 0 || h <= 0) never_ok("a default size that is none"); }
void gtk_widget_destroy(GtkWidget *x) { if (!win_of(x) && !win_of_term(x)) { never_ok("something that does not exist is destroyed"); return; } g_object_ref(x); g_object_run_dispose(G_OBJECT(x)); g_object_unref(x); }
GList *gtk_application_get_windows(GtkApplication *a)
{
	static GList *l;
	g_list_free(l);
	l = nullptr;
	for (auto w : wins) if (!w->destroyed && w->app == (GApplication *)a) l = g_list_prepend(l, w->p);
	return l;
}
GtkWindow *gtk_application_get_active_window(GtkApplication *a) { GList *l = gtk_application_get_windows(a); return l ? (GtkWindow *)l->data : nullptr; }
void gtk_window_set_application(GtkWindow *x, GtkApplication *a) { if (Win *w = win_of(x)) win_set_app(w, (GApplication *)a); }
GtkApplication *gtk_window_get_application(GtkWindow *x) { Win *w = win_of(x); return w ? (GtkApplication *)w->app : nullptr; }
void gtk_application_add_window(GtkApplication *a, GtkWindow *x) { gtk_window_set_application(x, a); }
void gtk_application_remove_window(GtkApplication *, GtkWindow *x) { gtk_window_set_application(x, nullptr); }
const gchar *gtk_window_get_title(GtkWindow *x) { Win *w = win_of(x); return w && w->titled ? w->title.c_str() : nullptr; }
gboolean gtk_widget_get_realized(GtkWidget *x) { Win *w = win_of(x); return w && w->realised; }
GtkWidget *gtk_bin_get_child(GtkBin *x) { Win *w = win_of(x); return w ? (GtkWidget *)w->term : nullptr; }
GtkWidget *gtk_widget_get_toplevel(GtkWidget *x) { Win *w = win_of_term(x); return w ? (GtkWidget *)w->p : x; }
void gdk_window_set_background_rgba(GdkWindow *, const GdkRGBA *c) { for (auto w : wins) if (w->realised && !w->gone) w->black = w->black || (c && c->red == 0 && c->green == 0 && c->blue == 0 && c->alpha == 1); }
}

/* ---- the specification ---- */
struct Args {			/* one command line */
	bool error = false, version = false;	/* refused by the option parser */
	std::map<std::string, std::string> str;
	std::map<std::string, bool> flag;
	bool has_sb = false; int64_t sb = 0;
	std::string refuse;	/* value that has no meaning */
};
static Args parse_args(const VS &av)
{
	Args a;
	static const char *flags[] = { "version", "show-dirty", "debug" }, *strs[] = { "font", "anti-aliasing", "subpixel-order", "sb-size" };
	for (size_t i = 0; i < av.size() && !a.error; i++) {
		const std::string &s = av[i];
		if (s.size() < 2 || s[0] != '-') continue;	/* not an option */
		bool known = false;
		for (auto f : flags) if (s == std::string("--") + f) { known = true; if (!strcmp(f, "version")) a.version = true; else a.flag[f] = true; }
		for (auto f : strs) {
			std::string n = std::string("--") + f, v;
			if (s != n && s.compare(0, n.size() + 1, n + "=")) continue;
			known = true;
			if (s != n) v = s.substr(n.size() + 1);
			else if (i + 1 < av.size()) v = av[++i];
			else { a.error = true; break; }
			if (strcmp(f, "sb-size")) { a.str[f] = v; break; }
			char *e;
			errno = 0;
			long long k = strtoll(v.c_str(), &e, 0);
			if (v.empty() || *e || errno || k > INT_MAX || k < INT_MIN) { a.error = true; break; }
			a.has_sb = true; a.sb = k;
			break;
		}
		if (!known) a.error = true;
	}
	auto bad = [&](const char *n, std::initializer_list<const char *> ok) { if (!a.str.count(n) || !a.refuse.empty()) return; for (auto o : ok) if (a.str[n] == o) return; a.refuse = a.str[n].empty() ? "(empty)" : a.str[n]; };
	bad("anti-aliasing", { "none", "gray", "subpixel", "default" });
	bad("subpixel-order", { "rgb", "bgr", "vrgb", "vbgr", "default" });
	return a;
}
struct SWin { Args a; bool alive = true; Mod M{ true }; std::string title; size_t osc = 0, out = 0; bool titled = false, noexec = false; std::string shell; std::map<std::string, std::string> env; };
static VS split_args(const std::string &s) { VS v; if (s.empty()) return v; size_t b = 0; for (;;) { size_t e = s.find('\n', b); v.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) return v; b = e + 1; } }

struct Script {
	const Case *c; Result *r;
	size_t next = 0;
	std::vector<SWin *> spec;
	size_t leaked = 0, given = 0;
	guint idle = 0;
	std::map<std::string, std::string> environment;
	std::string at;
};
static Script *S;
static std::map<std::string, std::string> env_map() { std::map<std::string, std::string> m; for (char **e = environ; e && *e; e++) { const char *q = strchr(*e, '='); if (q) m[std::string(*e, q - *e)] = q + 1; } return m; }
static void open_spec(const Args &a)
{
	SWin *w = new SWin();
	w->a = a;
	w->env = S->environment;
	w->shell = w->env.count("SHELL") ? w->env["SHELL"] : "/bin/sh";
	w->env["TERM"] = "xterm-256color"; w->env["COLORTERM"] = "gtktsm";
	w->noexec = exec_fails;
	S->spec.push_back(w);
}
static size_t alive_spec() { size_t n = 0; for (auto w : S->spec) n += w->alive; return n; }
static Win *real_of(size_t i)	/* windows that were refused do not count */
{
	size_t k = 0;
	for (auto w : wins) { if (w->presents == 0 && w->destroyed) continue; if (k++ == i) return w; }
	return nullptr;
}
/* what must be true whenever the main loop has nothing to do */
static std::string app_state()
{
	Result &r = *S->r;
	if (!app_err.empty()) return app_err;
	if (!log_err.empty()) return "message " + log_err;
	if (foreign_forks) return "a child is started for a terminal in no window";
	size_t n = 0;
	for (auto w : wins) if (w->presents || !w->destroyed) n++;
	if (n != S->spec.size()) return fmt("%zu windows were opened so far, expected %zu", n, S->spec.size());
	for (auto w : wins) {
		r.evals++;
		if (w->destroyed && !w->gone) return "a closed window is not released";
		if (w->destroyed && w->term && !w->term_gone) return "the terminal of a closed window is not released";
		if (!w->presents && !w->kids.empty()) return "a child was started although its window never opened";
	}
	for (size_t i = 0; i < S->spec.size(); i++) {
		SWin &s = *S->spec[i];
		Win &w = *real_of(i);
		std::string name = fmt("window %zu: ", i);
		r.evals += 4;
		if (w.presents != 1) return name + fmt("shown %u times", w.presents);
		if (w.kids.size() != 1) return name + fmt("%zu children were started", w.kids.size());
		const Spawned &k = w.kids[0];
		if (k.on) return name + "the child goes on as a second instance of the program";
		if (!k.execd) return name + "the child does not start a shell";
		if (k.path != s.shell) return name + "the child starts \"" + esc_bytes(k.path) + "\", expected \"" + esc_bytes(s.shell) + "\"";
		if (k.argv.size() != 1 || k.argv[0] != s.shell) return name + "the shell gets other arguments than its name";
		std::map<std::string, std::string> e;
		for (auto &x : k.env) { size_t q = x.find('='); std::string n = x.substr(0, q); if (e.count(n)) return name + "variable " + n + " is given twice"; e[n] = q == std::string::npos ? "" : x.substr(q + 1); }
		for (auto &x : s.env) if (!e.count(x.first)) return name + "the shell lacks variable " + x.first; else if (e[x.first] != x.second) return name + "the shell's " + x.first + " is \"" + esc_bytes(e[x.first]) + "\", expected \"" + esc_bytes(x.second) + "\"";
		for (auto &x : e) if (!s.env.count(x.first)) return name + "the shell has variable " + x.first + " that nobody set";
		if (s.noexec ? WIFEXITED(k.status) && !WEXITSTATUS(k.status) : !WIFEXITED(k.status) || WEXITSTATUS(k.status)) return name + fmt("the child ended with status %#x", k.status);
		if (w.destroyed != !s.alive) return name + (w.destroyed ? "closed although its child runs" : "still open although it should be closed");
		if (w.titled != s.titled || w.title != s.title) return name + "the title is \"" + esc_bytes(w.title) + "\", expected \"" + esc_bytes(s.title) + "\"";
		if (!s.alive) continue;
		if (!w.term || !w.shown || w.term_gone) return name + "shows no terminal";
		if (!w.realised) return name + "is not realised as every window";
		if (!w.black) return name + "is not black";
		if (!w.host.pty) return name + "its terminal has no child";
		if (w.host.pty->out != s.M.v->out) return name + "the child got \"" + esc_bytes(w.host.pty->out) + "\", expected \"" + esc_bytes(s.M.v->out) + "\"";
		char *f = nullptr, *a = nullptr, *b = nullptr;
		guint sb = 0;
		gboolean hl = FALSE, dbg = FALSE;
		g_object_get(G_OBJECT(w.term), "font", &f, "anti-aliasing", &a, "subpixel-order", &b, "sb-size", &sb, "show-dirty", &hl, "debug", &dbg, nullptr);
		auto want = [&](const char *n, const char *def) { return s.a.str.count(n) ? s.a.str[n] : std::string(def); };
		std::string er;
		if (!f || want("font", "Monospace") != f) er = std::string("font is ") + (f ? f : "(null)");
		if (!a || want("anti-aliasing", "default") != a) er = std::string("anti-aliasing is ") + (a ? a : "(null)");
		if (!b || want("subpixel-order", "default") != b) er = std::string("subpixel-order is ") + (b ? b : "(null)");
		if (sb != (s.a.has_sb ? std::max<int64_t>(0, s.a.sb) : 2000)) er = fmt("sb-size is %u", sb);
		if (!!hl != s.a.flag["show-dirty"]) er = "show-dirty is wrong";
		if (!!dbg != s.a.flag["debug"]) er = "debug is wrong";
		g_free(f); g_free(a); g_free(b);
		if (!er.empty()) return name + er;
	}
	if (S->leaked) return "values of the command line are never released";
	return "";
}
static std::string judge_run(const Args &a, int status, bool first)
{
	if (first && a.error) return status == 0 ? "options that do not exist were accepted (status 0)" : printed_err.empty() && printed.empty() ? "no message about wrong options" : "";
	if (first && a.version) return status ? fmt("status %d after --version", status) : printed != "GtkTsm\n" ? "--version prints \"" + esc_bytes(printed) + "\"" : "";
	if (!a.refuse.empty()) return status != 1 ? fmt("status %d after an option without meaning", status) : a.refuse != "(empty)" && printed_err.find(a.refuse) == std::string::npos ? "the message does not name the value that was refused" : printed_err.empty() ? "no message about the value that was refused" : "";
	if (status) return fmt("status %d", status);
	if (!printed.empty() || !printed_err.empty()) return "something is printed: \"" + esc_bytes(printed + printed_err) + "\"";
	return "";
}
static GVariant *tracked(const GVariantType *t, const void *val, size_t n)	/* a value whose release is seen */
{
	char *d = (char *)malloc(n);
	memcpy(d, val, n);
	S->leaked++; S->given++;
	return g_variant_new_from_data(t, d, n, TRUE, [](gpointer p) { S->leaked--; free(p); }, d);
}
static bool script_step()
{
	Result &r = *S->r;
	while (S->next < S->c->ops.size()) {
		const Op &o = S->c->ops[S->next++];
		if (o.k != O_IN) continue;
		if (o.v(0) == A_ENV || (o.v(0) == A_RUN && S->next == 1)) continue;
		S->at = fmt("after operation %zu ", S->next) + op_str(o) + ": ";
		size_t i = o.v(1);
		SWin *s = i < S->spec.size() && S->spec[i]->alive ? S->spec[i] : nullptr;
		Win *w = s ? real_of(i) : nullptr;
		switch (o.v(0)) {
		case A_NOEXEC: exec_fails = o.v(1); continue;
		case A_RUN: {
			Args a = parse_args(split_args(o.s));
			if (a.error || a.version) continue;	/* handled by the process that was called, not by this one */
			GVariantBuilder b;
			g_variant_builder_init(&b, G_VARIANT_TYPE("a{sv}"));
			for (auto &x : a.str) g_variant_builder_add(&b, "{sv}", x.first.c_str(), tracked(G_VARIANT_TYPE_STRING, x.second.c_str(), x.second.size() + 1));
			gint32 sb = a.sb;
			if (a.has_sb) g_variant_builder_add(&b, "{sv}", "sb-size", tracked(G_VARIANT_TYPE_INT32, &sb, sizeof(sb)));
			for (auto &x : a.flag) g_variant_builder_add(&b, "{sv}", x.first.c_str(), g_variant_new_boolean(TRUE));
			GVariant *opts = g_variant_ref_sink(g_variant_builder_end(&b));
			const char *none[] = { "gtktsm", nullptr };
			GObject *cmd = (GObject *)g_object_new(G_TYPE_APPLICATION_COMMAND_LINE, "arguments", g_variant_new_bytestring_array(none, -1), "options", opts, nullptr);
			g_variant_unref(opts);
			printed.clear(); printed_err.clear();
			gint status = -1;
			g_signal_emit_by_name(the_app, "command-line", cmd, &status);
			g_object_unref(cmd);
			std::string e = judge_run(a, status, false);
			if (!e.empty()) { never_ok(e); return false; }
			if (a.refuse.empty()) open_spec(a);
			r.n["invocations"]++;
			if (!a.refuse.empty()) r.n["refused"]++;
			return true;
		}
		case A_ACTIVATE: open_spec(Args()); r.n["invocations"]++; g_application_activate(the_app); return true;
		case A_OUT: case A_EXIT:
			if (!w || !w->host.pty) continue;
			if (!o.s.empty()) {
				Op in = IN(o.s);
				s->M.apply(in);
				for (; s->osc < s->M.v->osc.size(); s->osc++) if (!s->M.v->osc[s->osc].compare(0, 2, "2;")) { s->title = s->M.v->osc[s->osc].substr(2); s->titled = true; r.n["titles"]++; }
				w->host.pty->in += o.s;
				bridge_wake(w->host.pty->bridge);
			}
			if (o.v(0) == A_OUT) return true;
			cur = &w->host;
			s->alive = false;
			r.n["child_ends"]++;
			if (w->host.child_fn) { g_source_remove(w->host.child_src); auto f = w->host.child_fn; w->host.child_fn = nullptr; f(fake_pid, 0, w->host.child_data); }
			return true;
		case A_CLOSE:
			if (!w) continue;
			s->alive = false;
			r.n["closes"]++;
			gtk_widget_destroy((GtkWidget *)w->p);
			return true;
		}
	}
	/* the rest of the windows is closed by the ends of their children */
	for (size_t i = 0; i < S->spec.size(); i++) if (S->spec[i]->alive) {
		Win *w = real_of(i);
		S->at = fmt("at the end, after child %zu ended: ", i);
		S->spec[i]->alive = false;
		cur = &w->host;
		if (w->host.child_fn) { g_source_remove(w->host.child_src); auto f = w->host.child_fn; w->host.child_fn = nullptr; f(fake_pid, 0, w->host.child_data); }
		return true;
	}
	return false;
}
static void app_stop(const std::string &m);
static gboolean on_idle(gpointer)
{
	if (getpid() != case_pid) { (void)!write(exec_pipe, "W", 1); _exit(1); }
	if (!the_app) { the_app = g_application_get_default(); watch_end(the_app, &app_gone); }
	if (!g_application_get_is_registered(the_app)) { S->idle = 0; return FALSE; }	/* it is ending */
	std::string e = app_state();
	S->r->n["operations"]++;
	if (!e.empty()) app_stop(S->at + e);
	if (!alive_spec()) {	/* the program must come to its end by itself */
		g_timeout_add_seconds(6, [](gpointer) -> gboolean { app_stop(S->at + "the program goes on without a window"); return FALSE; }, nullptr);
		S->idle = 0;
		return FALSE;
	}
	script_step();
	if (!app_err.empty()) app_stop(S->at + app_err);
	return TRUE;
}
static int app_out = -1;
static void app_stop(const std::string &m)	/* end of the case's process */
{
	Result &r = *S->r;
	std::string key = "program", o = key + "\n" + esc_bytes(m) + "\n" + std::to_string(r.evals) + "\n" + std::to_string(r.state) + "\n";
	for (auto &x : r.n) o += x.first + " " + std::to_string(x.second) + "\n";
	o += ".\n";
	for (size_t i = 0; i < o.size(); ) { ssize_t l = write(app_out, o.data() + i, o.size() - i); if (l <= 0) break; i += l; }
	_exit(0);
}
static void app_case(const Case &c, Result &r)
{
	case_pid = getpid();
	app_mode = true;
	g_log_set_default_handler(on_log, nullptr);
	g_set_print_handler([](const gchar *s) { printed += s; });
	g_set_printerr_handler([](const gchar *s) { printed_err += s; });
	log_err.clear();
	/* pango's worker threads stayed behind in the parent: start new ones */
	g_object_ref(pango_cairo_font_map_get_default());
	PangoFontMap *fm = pango_cairo_font_map_new();
	pango_cairo_font_map_set_default((PangoCairoFontMap *)fm);
	g_object_unref(fm);
	clearenv();
	setenv("DBUS_SESSION_BUS_ADDRESS", "unix:path=/nonexistent/bus", 1);
	setenv("G_MESSAGES_DEBUG", "", 1);
	Script s;
	S = &s; s.c = &c; s.r = &r;
	for (auto &o : c.ops) if (o.k == O_IN && o.v(0) == A_ENV) { size_t q = o.s.find('='); if (q && q != std::string::npos) setenv(o.s.substr(0, q).c_str(), o.s.substr(q + 1).c_str(), 1); }
	exec_fails = c.p.size() && c.p[0];
	s.environment = env_map();
	VS av;
	if (!c.ops.empty() && c.ops[0].k == O_IN && c.ops[0].v(0) == A_RUN) av = split_args(c.ops[0].s);
	Args a = parse_args(av);
	s.at = "at the start: ";
	bool opens = !a.error && !a.version && a.refuse.empty();
	if (opens) open_spec(a);
	r.n["invocations"]++;
	if (!opens) r.n["refused"]++;
	std::vector<char *> argv = { strdup("gtktsm") };
	for (auto &x : av) argv.push_back(strdup(x.c_str()));
	argv.push_back(nullptr);
	s.idle = g_idle_add_full(G_PRIORITY_LOW + 100, on_idle, nullptr, nullptr);
	if (opens) printed.clear();
	std::vector<char *> keep(argv);
	int st = gtktsm_main(int(argv.size()) - 1, argv.data());
	if (getpid() != case_pid) { (void)!write(exec_pipe, "W", 1); _exit(1); }
	for (auto p : keep) free(p);
	if (s.idle) g_source_remove(s.idle);
	s.at = "at the end: ";
	spin();
	if (alive_spec()) app_stop(s.at + fmt("the program ended although %zu windows are open (status %d)", alive_spec(), st));
	std::string e = app_state();
	if (e.empty() && !opens) e = judge_run(a, st, true);
	if (e.empty() && opens && st) e = fmt("the program's status is %d", st);
	if (e.empty() && opens && !app_gone) e = "the application object is never released";
	if (e.empty() && ptys) e = "a pseudo terminal is never released";
	std::string t = fmt("%d ", st);
	for (auto w : s.spec) { t += w->title + "\1" + w->M.v->out + "\2"; for (auto &x : w->a.str) t += x.first + x.second; for (auto &x : w->a.flag) t += x.first; if (w->a.has_sb) t += std::to_string(w->a.sb); t += w->shell; }
	for (auto &x : s.environment) t += x.first + x.second;
	r.state = hash_str(t.c_str());
	r.n["windows"] += s.spec.size(); r.n["max_windows"] = s.spec.size(); r.n["values_tracked"] += s.given;
	app_stop(e.empty() ? "" : s.at + e);
}
/* pango's threads may still be at work when it has what it asked them for; a fork
 * at that time could leave a lock behind that nobody releases */
static void threads_rest()
{
	for (int still = 0, n = 0; still < 5 && n < 1000; n++) {
		bool busy = false;
		if (DIR *d = opendir("/proc/self/task")) {
			while (struct dirent *e = readdir(d)) {
				if (e->d_name[0] == '.' || atoi(e->d_name) == getpid()) continue;
				std::ifstream f(std::string("/proc/self/task/") + e->d_name + "/stat");
				std::string l;
				std::getline(f, l);
				size_t q = l.rfind(')');
				if (q == std::string::npos || l.compare(q, 4, ") S ")) busy = true;
			}
			closedir(d);
		}
		still = busy ? 0 : still + 1;
		usleep(5000);
	}
}
static void eval48(const Case &c, Result &r)
{
	static bool warm = false;
	if (!warm) { warm = true; g_log_set_default_handler(on_log, nullptr); metrics(Look()); gtk_application_get_type(); gtk_window_get_type(); threads_rest(); }
	int f[2];
	if (pipe(f)) abort();
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) abort();
	if (!pid) {
		close(f[0]);
		app_out = f[1];
		alarm(25);
		app_case(c, r);
		_exit(1);
	}
	close(f[1]);
	std::string t;
	char b[4096];
	for (ssize_t l; (l = read(f[0], b, sizeof b)) > 0 || (l < 0 && errno == EINTR); ) if (l > 0) t.append(b, l);
	close(f[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	if (t.size() < 2 || t.substr(t.size() - 2) != ".\n" || !WIFEXITED(st) || WEXITSTATUS(st)) {
		r.fail("crash", WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "the program hangs" : fmt("the program fails (status %#x); see the sanitizer's or GLib's report", st));
		return;
	}
	std::istringstream is(t);
	std::string key, msg, l;
	std::getline(is, key); std::getline(is, msg);
	is >> r.evals >> r.state;
	std::string n; uint64_t v;
	while (is >> n && n != ".") { is >> v; r.n[n] = v; }
	if (!msg.empty()) r.fail(key, msg);
}
static std::string gen_args(Rng &r, bool first)
{
	VS v;
	auto opt = [&](const char *n, const std::string &val) { if (r.p(0.5)) v.push_back(std::string("--") + n + "=" + val); else { v.push_back(std::string("--") + n); v.push_back(val); } };
	int k = r.w({ 3, 4, 4, 3, 2 });
	while (k--) switch (r.w({ 4, 4, 4, 4, 3, 3, first ? 1 : 0, first ? 1 : 0, 1 })) {
	case 0: opt("font", r.pick(VS{ "Monospace 10", "Sans 7", "Serif", "No Such Font 12", "a", "Monospace Bold 9", "" })); break;
	case 1: opt("sb-size", r.pick(VS{ "0", "1", "-1", "2000", "1999", "100", "-2147483648", "2147483647", "0x10", "010", "-5", std::to_string(r.range(-100, 100000)) })); break;
	case 2: opt("anti-aliasing", r.p(0.8) ? AA[r.below(4)] : r.pick(VS{ "grey", "", "Gray", "gray ", "rgb", "nones", "non", "subpixels", "defaul", "1" })); break;
	case 3: opt("subpixel-order", r.p(0.8) ? SUB[r.below(5)] : r.pick(VS{ "RGB", "", "rbg", "gray", "none", "vrg", "vrgbx", "bgrv", "0" })); break;
	case 4: v.push_back("--show-dirty"); break;
	case 5: v.push_back("--debug"); break;
	case 6: v.push_back("--version"); break;
	case 7: if (r.p(0.3)) { v.push_back("--sb-size"); if (r.p(0.8)) v.push_back(r.pick(VS{ "x", "12x", "2147483648", "-2147483649" })); else k = 0; } else v.push_back(r.pick(VS{ "--colour", "--fonts=x", "-x", "--sbsize" })); break;
	case 8: v.push_back(r.pick(VS{ "file", "x", "ls" })); break;
	}
	std::string s;
	for (size_t i = 0; i < v.size(); i++) s += (i ? "\n" : "") + v[i];
	return s;
}
static void gen48(uint64_t seed, uint64_t index, bool, Case &c)
{
	Gen g(mix(mix(seed, hash_str("C48")), index));
	auto &r = g.r;
	c.p = { r.p(0.06) };
	c.ops.push_back(Op(O_IN, { A_RUN }, gen_args(r, true)));
	if (r.p(0.8)) c.ops.push_back(Op(O_IN, { A_ENV }, r.pick(VS{ "SHELL=/bin/bash", "SHELL=/usr/bin/my shell", "SHELL=zsh", "SHELL=/bin/sh", "SHELL=/opt/a=b/fish" })));
	if (r.p(0.6)) c.ops.push_back(Op(O_IN, { A_ENV }, r.pick(VS{ "TERM=dumb", "TERM=", "TERM=xterm-256color", "TERM=linux" })));
	if (r.p(0.4)) c.ops.push_back(Op(O_IN, { A_ENV }, r.pick(VS{ "COLORTERM=truecolor", "COLORTERM=", "COLORTERM=gnome-terminal" })));
	for (int k = r.w({ 1, 3, 3, 1 }); k--; ) c.ops.push_back(Op(O_IN, { A_ENV }, r.pick(VS{ "HOME=/root", "PATH=/bin:/usr/bin", "FOO=bar=baz", "EMPTY=", "TERMINFO=/x", "TERMCAP=y", "COLUMNS=80", "LINES=24", "XCOLORTERM=1", "LONG=" + std::string(r.range(1, 3000), 'l') })));
	size_t n = 1;
	int k = r.range(2, 25);
	while (k--) {
		int64_t i = r.p(0.7) ? (int64_t)n - 1 - r.below(2) : r.below(n);
		if (i < 0) i = 0;
		switch (r.w({ 3, 2, 12, 3, 2, 1 })) {
		case 0: c.ops.push_back(Op(O_IN, { A_RUN }, gen_args(r, false))); if (!parse_args(split_args(c.ops.back().s)).refuse.empty()) break; n++; break;
		case 1: c.ops.push_back(Op(O_IN, { A_ACTIVATE })); n++; break;
		case 2: case 3: {
			bool end = r.p(0.2);
			std::string s;
			if (!end || r.p(0.5)) for (int j = r.range(1, 4); j--; ) switch (r.w({ 3, 5, 2, 1 })) {
			case 0: s += g.text(r.range(1, 30)) + (r.p(0.3) ? "\r\n" : ""); break;
			case 1: s += "\x1b]" + std::string(r.p(0.85) ? "2;" : r.pick(VS{ "0;", "1;", "22;", "2" })) + g.text(r.below(12)) + (r.p(0.5) ? "\x07" : "\x1b\\"); break;
			case 2: s += r.pick(VS{ "\x1b[c", "\x1b[6n", "\x1b[5n", "\x1b[>c" }); break;
			default: if (r.p(0.2)) for (int m = r.range(10, 60); m--; ) s += g.text(60) + "\r\n"; break;
			}
			c.ops.push_back(Op(O_IN, { end ? A_EXIT : A_OUT, i }, s));
			break;
		}
		case 4: c.ops.push_back(Op(O_IN, { A_CLOSE, i })); break;
		default: c.ops.push_back(Op(O_IN, { A_NOEXEC, (int64_t)r.p(0.2) })); break;
		}
	}
}

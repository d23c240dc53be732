/* Runner: tsmv run|replay|gen|list */
#include "check.hpp"
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>

bool g_replay, g_thorough;
uint64_t g_steps, g_steps_limit;
/* --- edge coverage of the library (only in builds that are instrumented for it) --- */
static uint32_t n_guards;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	if (a == b || *a) return;
	for (; a < b; a++) *a = ++n_guards;
}
static uint8_t hitmap[1 << 16];
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (++g_steps == g_steps_limit) { static const char m[] = "\nWORK: one call executes without end\n"; (void)!write(2, m, sizeof m - 1); _exit(78); }
	hitmap[*g & 0xffff] = 1;
}
}

static int cpu_limit = 30;
static void on_prof(int) { static const char m[] = "\nHANG: CPU limit of one case exceeded\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
static void arm()
{
	struct itimerval it = {};
	it.it_value.tv_sec = cpu_limit;
	setitimer(ITIMER_PROF, &it, nullptr);
}

extern const CheckDef diff_checks[];
extern const CheckDef special_checks[] __attribute__((weak));
extern const CheckDef term_checks[] __attribute__((weak));
extern const CheckDef util_checks[] __attribute__((weak));
extern const CheckDef conc_checks[] __attribute__((weak));
extern const CheckDef gtk_checks[] __attribute__((weak));

static const CheckDef *find(const std::string &id)
{
	const CheckDef *t[] = { diff_checks, special_checks, term_checks, util_checks, conc_checks, gtk_checks };
	for (auto p : t) if (p) for (; p->id; p++) if (id == p->id) return p;
	return nullptr;
}

static std::string json(const std::string &s)
{
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += char(c);
	}
	return o + "\"";
}
static std::string case_text(const CheckDef *d, const Case &c, const std::string &msg)
{
	std::string t = std::string("# check ") + d->id + "\n";
	if (!msg.empty()) { std::string m = msg; for (auto &ch : m) if (ch == '\n') ch = ' '; t += "# " + m + "\n"; }
	t += "@p";
	for (auto v : c.p) t += " " + std::to_string(v);
	t += "\n" + ops_str(c.ops);
	return t;
}
static bool load_case(const char *file, std::string &id, Case &c)
{
	std::ifstream f(file);
	std::string l;
	if (!f) return false;
	while (std::getline(f, l)) {
		if (l.compare(0, 8, "# check ") == 0) id = l.substr(8);
		else if (l.compare(0, 2, "@p") == 0) { std::istringstream is(l.substr(2)); int64_t v; while (is >> v) c.p.push_back(v); }
		else { Op o; if (parse_op(l, o)) c.ops.push_back(o); }
	}
	return !id.empty();
}

static Result judge(const CheckDef *d, const Case &c) { Result r; arm(); d->eval(c, r); return r; }

/* delta debugging over the operations, keeping the key of the failure */
static Case shrink(const CheckDef *d, const Case &c0, const std::string &key)
{
	Case best = c0;
	int budget = 1500;
	time_t end = time(nullptr) + 30;
	auto spend = [&] { if (time(nullptr) >= end) budget = 0; return budget-- > 0; };
	for (size_t chunk = (best.ops.size() + 1) / 2; chunk >= 1 && budget > 0; ) {
		bool any = false;
		for (size_t i = 0; i < best.ops.size() && budget > 0; ) {
			Case t = best;
			t.ops.erase(t.ops.begin() + i, t.ops.begin() + std::min(i + chunk, t.ops.size()));
			if (!spend()) break;
			Result r = judge(d, t);
			if (!r.msg.empty() && r.key == key) { best = t; any = true; }
			else i += chunk;
		}
		if (chunk == 1 && !any) break;
		if (!any || chunk > best.ops.size()) chunk = chunk > 1 ? chunk / 2 : 1;
	}
	for (size_t i = 0; i < best.ops.size() && budget > 0; i++)	/* shorten inputs */
		for (size_t ch = best.ops[i].s.size() / 2; ch >= 1 && budget > 0; ch /= 2)
			for (size_t j = 0; j + ch <= best.ops[i].s.size() && budget > 0; ) {
				Case t = best;
				t.ops[i].s.erase(j, ch);
				if (!spend()) break;
				Result r = judge(d, t);
				if (!r.msg.empty() && r.key == key) best = t; else j += ch;
			}
	return best;
}

int main(int argc, char **argv)
{
	std::string cmd = argc > 1 ? argv[1] : "", id = argc > 2 ? argv[2] : "";
	std::map<std::string, std::string> opt;
	for (int i = 3; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	auto num = [&](const char *k, uint64_t def) { return opt.count(k) ? strtoull(opt[k].c_str(), nullptr, 0) : def; };
	signal(SIGPROF, on_prof);
	signal(SIGPIPE, SIG_IGN);
	cpu_limit = num("--cpu", 30);
	g_thorough = opt["--tier"] == "thorough";
	bool do_shrink = num("--shrink", 1);

	if (cmd == "count") {
		const CheckDef *d = find(id);
		if (!d) return 3;
		printf("%llu\n", (unsigned long long)(g_thorough ? d->thorough : d->quick));
		return 0;
	}
	if (cmd == "replay") {
		Case c; std::string cid;
		if (!load_case(id.c_str(), cid, c)) { fprintf(stderr, "cannot read %s\n", id.c_str()); return 3; }
		const CheckDef *d = find(cid);
		if (!d) return 3;
		g_replay = true;
		Result r = judge(d, c);
		if (r.msg.empty()) { printf("held\n"); return 0; }
		printf("violated [%s]: %s\n", r.key.c_str(), r.msg.c_str());
		return 1;
	}
	const CheckDef *d = find(id);
	if (!d) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 3; }
	uint64_t seed = num("--seed", 1);
	if (cmd == "gen") {
		Case c;
		d->gen(seed, num("--index", 0), g_thorough, c);
		fputs(case_text(d, c, "").c_str(), stdout);
		return 0;
	}
	if (cmd != "run") return 3;

	uint64_t from = num("--from", 0), to = num("--to", d->quick), step = num("--step", 1);
	int status = opt.count("--status") ? open(opt["--status"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
	uint64_t max_viol = num("--max", 4);
	std::map<std::string, uint64_t> n;
	std::set<uint64_t> states;
	uint64_t evals = 0, cases = 0, more = 0;
	std::string viol, samples;
	size_t nviol = 0, nsamp = 0;
	std::set<std::string> keys;
	/* once any worker has seen a violation, all look on for a short while only */
	std::string stopf = opt["--stop"];
	time_t stop_at = 0;
	for (uint64_t i = from; i < to; i += step) {
		if (!stopf.empty() && !stop_at && !access(stopf.c_str(), F_OK)) stop_at = time(nullptr) + 20;
		if (stop_at && time(nullptr) >= stop_at) break;
		if (status >= 0) { char b[32]; int l = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)i); (void)!pwrite(status, b, l, 0); }
		Case c;
		arm();
		d->gen(seed, i, g_thorough, c);
		Result r = judge(d, c);
		cases++;
		evals += r.evals; more += r.more_states;
		states.insert(r.state);
		for (auto &k : r.n) { if (!k.first.compare(0, 4, "max_")) n[k.first] = std::max(n[k.first], k.second); else n[k.first] += k.second; }
		if (nsamp < 3 && r.msg.empty()) {
			std::string t = r.note;
			if (t.empty()) { t = ops_str(c.ops); for (auto &ch : t) if (ch == '\n') ch = '|'; }
			if (t.size() > 300) t = t.substr(0, 300) + "...";
			samples += (nsamp++ ? "," : "") + json(fmt("case %llu: ", (unsigned long long)i) + t);
		}
		if (!r.msg.empty()) {
			if (keys.count(r.key) && nviol >= 2) { if (++nviol > 200) break; continue; }
			keys.insert(r.key);
			if (!stopf.empty()) { int fd = open(stopf.c_str(), O_WRONLY | O_CREAT, 0644); if (fd >= 0) close(fd); }
			Case m = do_shrink && !c.ops.empty() ? shrink(d, c, r.key) : c;
			Result r2 = judge(d, m);
			if (r2.msg.empty()) { m = c; r2 = r; }
			viol += (nviol++ ? "," : "") + std::string("{\"index\":") + std::to_string(i) + ",\"key\":" + json(r2.key) + ",\"msg\":" + json(r2.msg) + ",\"case\":" + json(case_text(d, m, r2.msg)) + "}";
			if (keys.size() >= max_viol) break;
		}
	}
	struct itimerval off = {};
	setitimer(ITIMER_PROF, &off, nullptr);
	unsigned edges = 0;
	for (uint32_t i = 1; i <= n_guards && i < sizeof hitmap; i++) edges += hitmap[i];
	std::ostream *os = &std::cout;
	std::ofstream of;
	if (opt.count("--out")) { of.open(opt["--out"]); os = &of; }
	*os << "{\"cases\":" << cases << ",\"evals\":" << evals << ",\"more_states\":" << more << ",\"edges_total\":" << n_guards << ",\"edges_hit\":" << edges << ",\"edges\":\"";
	for (uint32_t i = 1; i <= n_guards && i < sizeof hitmap; i++) *os << (hitmap[i] ? '1' : '0');
	*os << "\",\"counters\":{";
	bool first = true;
	for (auto &k : n) { *os << (first ? "" : ",") << json(k.first) << ":" << k.second; first = false; }
	*os << "},\"states\":[";
	first = true;
	size_t lim = 200000;
	for (auto s : states) { if (!lim--) break; *os << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; first = false; }
	*os << "],\"samples\":[" << samples << "],\"violations\":[" << viol << "]}\n";
	os->flush();
	return *os ? 0 : 3;
}

/* Monitors on the utility layer: text conversion, symbol table, hash table,
 * ring, array, pseudo terminals. */
#include "check.hpp"
#include "gen.hpp"
#include <cerrno>
#include <climits>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/resource.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#include <unordered_map>
using namespace model;
typedef std::vector<uint32_t> U32;

extern "C" {
int u_sym_new(void **t); void u_sym_ref(void *t); void u_sym_unref(void *t); uint32_t u_sym_make(uint32_t c);
uint32_t u_sym_append(void *t, uint32_t s, uint32_t c); const uint32_t *u_sym_get(void *t, uint32_t *s, size_t *n); unsigned u_sym_width(void *t, uint32_t s);
void *u_ht_new(bool (*cmp)(const void *, const void *), size_t (*hash)(const void *, void *), void *priv);
void u_ht_free(void *h, void (*cb)(void *, void *), void *ctx); void u_ht_clear(void *h, void (*cb)(void *, void *), void *ctx); void u_ht_visit(void *h, void (*cb)(void *, void *), void *ctx);
bool u_ht_lookup(void *h, const void *o, size_t hash, void **out); int u_ht_insert(void *h, const void *o, size_t hash); bool u_ht_remove(void *h, const void *o, size_t hash, void **out);
void *u_hts_new(bool); void *u_htu_new(bool);
void u_hts_visit(void *, void (*)(char **, void *), void *); void u_hts_clear(void *, void (*)(char **, void *), void *);
void u_htu_visit(void *, void (*)(unsigned long *, void *), void *); void u_htu_clear(void *, void (*)(unsigned long *, void *), void *);
bool u_hts_lookup(void *h, const char *s, size_t *hash, char ***out); int u_hts_insert(void *h, char **s, size_t *hash); bool u_hts_remove(void *h, const char *s, size_t *hash, char ***out);
bool u_htu_lookup(void *h, unsigned long k, unsigned long **out); int u_htu_insert(void *h, const unsigned long *k); bool u_htu_remove(void *h, unsigned long k, unsigned long **out);
void *u_ring_new(void); void u_ring_free(void *r); void u_ring_clear(void *r); void u_ring_flush(void *r); size_t u_ring_peek(void *r, struct iovec *v);
size_t u_ring_copy(void *r, void *b, size_t n); int u_ring_push(void *r, const void *b, size_t n); void u_ring_pull(void *r, size_t n); size_t u_ring_size(void *r);
int u_arr_new(void **a, size_t es, size_t n); void u_arr_free(void *a); int u_arr_zresize(void *a, size_t n); int u_arr_push(void *a, const void *d); void u_arr_pop(void *a);
void *u_arr_data(void *a); size_t u_arr_len(void *a); size_t u_arr_bsize(void *a); size_t u_arr_es(void *a); size_t u_pow2(size_t v);
#include "shl-pty.h"
}

static uint64_t cseed(const char *id, uint64_t seed, uint64_t i) { return mix(mix(seed, hash_str(id)), i); }
#define FAIL(key, ...) do { r.fail(key, fmt(__VA_ARGS__)); return; } while (0)
#define GEN(id) static void gen##id(uint64_t seed, uint64_t i, bool th, Case &c) { (void)th; c.p = { (int64_t)(cseed("C" #id, seed, i) >> 1), (int64_t)i }; }

/* ---- C29: code points to UTF-8, display width ---- */
enum { C29_ENUM = 0x110000 / 4096 };
GEN(29)
static size_t ref_utf8(uint32_t g, char *o)
{
	if ((g >= 0xd800 && g <= 0xdfff) || g > 0x10ffff || (g & 0xfffe) == 0xfffe || (g >= 0xfdd0 && g <= 0xfdef)) return 0;
	if (g < 0x80) { o[0] = char(g); return 1; }
	if (g < 0x800) { o[0] = char(0xc0 | g >> 6); o[1] = char(0x80 | (g & 63)); return 2; }
	if (g < 0x10000) { o[0] = char(0xe0 | g >> 12); o[1] = char(0x80 | (g >> 6 & 63)); o[2] = char(0x80 | (g & 63)); return 3; }
	o[0] = char(0xf0 | g >> 18); o[1] = char(0x80 | (g >> 12 & 63)); o[2] = char(0x80 | (g >> 6 & 63)); o[3] = char(0x80 | (g & 63));
	return 4;
}
static bool conv1(uint32_t g, Result &r)
{
	char ref[4] = {}, *b = (char *)malloc(4);	/* exactly the documented size */
	memset(b, 0x55, 4);
	size_t n = tsm_ucs4_to_utf8(g, b), m = ref_utf8(g, ref);
	bool ok = n == m && !memcmp(b, ref, n);
	r.evals++;
	if (!ok) r.fail("utf8", fmt("U+%04X is converted to %zu bytes \"%s\", expected %zu bytes \"%s\"", g, n, esc_bytes(std::string(b, std::min<size_t>(n, 4))).c_str(), m, esc_bytes(std::string(ref, m)).c_str()));
	free(b);
	unsigned w = tsm_ucs4_get_width(g), x = g > 0x10ffff ? std::min(w, 2u) : width_of(g);
	if (ok && w != x) { r.fail("width", fmt("U+%04X has width %u, expected %u", g, w, x)); ok = false; }
	return ok;
}
static void eval29(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	if (c.p[1] < C29_ENUM) {
		for (uint32_t g = c.p[1] * 4096; g < (c.p[1] + 1) * 4096; g++) if (!conv1(g, r)) return;
		r.n["code_points"] += 4096;
		r.state = c.p[1];
		r.note = fmt("all code points U+%04llX..U+%04llX", (unsigned long long)c.p[1] * 4096, (unsigned long long)c.p[1] * 4096 + 4095);
		return;
	}
	for (int k = 0; k < 50; k++) { uint32_t g = q.p(0.5) ? 0x110000 + q.below(0x100000) : q.next(); if (!conv1(g, r)) return; }
	for (int k = 0; k < 30; k++) {
		U32 v(q.below(20));
		std::string want;
		for (auto &x : v) {
			x = q.p(0.15) ? q.pick(U32{ 0xd800, 0xdfff, 0xfffe, 0xffff, 0x1fffe, 0xfdd0, 0xfdef, 0x110000, 0xffffffff }) : q.p(0.3) ? q.below(0x80) : q.p(0.5) ? q.below(0x3000) : q.below(0x110000);
			char b[4]; want += std::string(b, ref_utf8(x, b));
		}
		g_mon.start();
		size_t len = 4711;
		uint32_t *in = (uint32_t *)malloc(v.size() * 4 + 1);
		memcpy(in, v.data(), v.size() * 4);
		char *s = tsm_ucs4_to_utf8_alloc(in, v.size(), q.p(0.9) ? &len : nullptr);
		free(in);
		r.evals++;
		std::string got = s ? std::string(s, want.size()) : "";
		bool nul = !s;
		if (s) user_free(s);
		bool leak = g_mon.live; g_mon.stop();
		if (nul != want.empty()) FAIL("alloc", "conversion of %zu code points %s", v.size(), nul ? "failed" : "returned an empty string");
		if (got != want || (!nul && len != 4711 && len != want.size())) FAIL("alloc", "conversion of %zu code points gave \"%s\" (length %zu), expected \"%s\"", v.size(), esc_bytes(got).c_str(), len, esc_bytes(want).c_str());
		if (leak) FAIL("leak", "conversion leaks");
		r.n["strings"]++;
	}
	r.state = c.p[0];
	r.note = "random strings and out-of-range values";
}

/* ---- C30: symbol table ---- */
GEN(30)
static const uint32_t UMAX = 0x7fffffff;	/* plain characters: 31 bits */
static void eval30(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	g_mon.start();
	void *t = nullptr;
	int refs = 1;
	if (u_sym_new(&t)) abort();
	std::map<U32, uint32_t> id;
	std::map<uint32_t, U32> str;
	std::vector<uint32_t> syms;
	bool large = q.p(0.002);	/* more symbols than 16 bits can number */
	int steps = large ? q.range(60000, 180000) : q.p(0.1) ? 3000 : 300;
	bool few = !large && q.p(0.5), oom = !large && q.p(0.4);
	double all = large ? 0.00002 : 0.1;
	auto cp = [&]() -> uint32_t { return few ? 'a' + q.below(3) + (q.p(0.2) ? 33 : 0) : q.p(0.03) ? lit_of(q, 1, 0x10ffff) : q.p(0.05) ? 0x7ffffffe + q.below(4) : q.p(0.2) ? q.below(0x110000) : 0x300 + q.below(0x70); };
	U32 s;
	/* sequences that collide in a hash of the form h * 33 + c: another character 33 further on, and
	 * a long sequence that collides with its own beginning */
	std::deque<uint32_t> digits; uint32_t last = 0;
	for (int k = 0; k < steps; k++) {
		/* start from a plain character or an existing symbol */
		uint32_t base = !syms.empty() && q.p(0.75) ? q.pick(syms) : (few ? 'a' + q.below(2) : q.p(0.02) ? UMAX - q.below(2) : q.below(0x110000));
		s = base <= UMAX ? U32{ base } : str[base];
		uint32_t add = cp();
		if (!few && digits.empty() && s.size() == 2 && !oom && q.p(0.05)) {
			uint64_t h = 5381, m = 1, p7 = 1; for (uint32_t x : s) h = h * 33 + x;
			for (int i = 0; i < 8; i++) m *= 33;
			for (int i = 0; i < 7; i++) p7 *= 33;
			uint64_t T = h - h * m;
			for (int i = 0; i < 8; i++, p7 /= 33) { digits.push_back(T / p7); T %= p7; }
			last = base; r.n["colliding_sequences"]++;
		}
		if (!digits.empty()) { base = last; s = base <= UMAX ? U32{ base } : str[base]; add = digits.front(); digits.pop_front(); }
		if (oom && q.p(0.3)) g_mon.fail_in = q.below(4);
		uint64_t f0 = g_mon.fired;
		uint32_t got = u_sym_append(t, base, add);
		bool fired = g_mon.fired != f0;
		g_mon.fail_in = -1;
		r.evals++; r.n["appends"]++;
		U32 want = s; want.push_back(add);
		if (add > UMAX || s.size() >= 10) { if (got != base) { r.fail("append", fmt("appending U+%x to a symbol of %zu characters gave another symbol", add, s.size())); goto out; } r.n["refused"]++; }
		else if (got == base) {
			if (!fired) { r.fail("append", fmt("appending U+%x to a symbol of %zu characters changed nothing", add, s.size())); goto out; }
			r.n["failed_for_memory"]++;
		} else {
			if (got <= UMAX) { r.fail("append", fmt("combined symbol %#x is in the range of plain characters", got)); goto out; }
			auto it = id.find(want);
			if (it != id.end()) { if (it->second != got) { r.fail("dup", "the same character sequence got two symbols"); goto out; } r.n["found_again"]++; }
			else {
				if (str.count(got)) { r.fail("dup", "one symbol stands for two character sequences"); goto out; }
				id[want] = got; str[got] = want; syms.push_back(got); r.n["symbols"]++;
			}
			last = got;
		}
		if (q.p(all) || (large && k + 1 == steps)) {	/* all symbols still decompose into their characters */
			for (auto &e : str) {
				uint32_t v = e.first; size_t n = 99;
				const uint32_t *p = u_sym_get(t, &v, &n);
				r.evals++;
				if (n != e.second.size() || memcmp(p, e.second.data(), n * 4)) { r.fail("get", fmt("symbol %#x of %zu characters decomposes into %zu characters or others", e.first, e.second.size(), n)); goto out; }
				unsigned w = u_sym_width(t, e.first), x = e.second[0] > 0x10ffff ? w : width_of(e.second[0]);
				if (w != x || w > 2) { r.fail("width", fmt("width %u, expected %u", w, x)); goto out; }
			}
			uint32_t v = q.below(0x110000), bad = (str.empty() ? UMAX + 1 : str.rbegin()->first) + 1 + q.below(1000); size_t n = 0;
			if (u_sym_get(t, &v, &n) != &v || n != 1) { r.fail("get", "plain character does not decompose into itself"); goto out; }
			const uint32_t *p = u_sym_get(t, &bad, &n);
			if (n != 1 || *p != 0) { r.fail("get", "unknown symbol does not give the default character"); goto out; }
			bad = UMAX + 1;
			p = u_sym_get(t, &bad, &n);
			if (n != 1 || *p != 0) { r.fail("get", "the unused first symbol does not give the default character"); goto out; }
			if (u_sym_make(v) != v || u_sym_make(UMAX + 1 + q.below(1 << 30)) != 0) { r.fail("make", "wrong symbol for a plain character"); goto out; }
		}
		if (q.p(0.05)) { if (q.p(0.5)) { u_sym_ref(t); refs++; } else if (refs > 1) { u_sym_unref(t); refs--; } }
	}
out:
	while (refs-- > 0) {
		if (refs == 0 && r.msg.empty() && !g_mon.live) r.fail("early", "freed while still referenced");
		u_sym_unref(t);
	}
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left", g_mon.live));
	if (r.msg.empty() && g_mon.bad_free) r.fail("free", "freed something that was not allocated");
	g_mon.stop();
	r.state = hash_bytes(s.data(), s.size() * 4, id.size());
	r.n["max_symbols"] = std::max<uint64_t>(r.n["max_symbols"], id.size());
	r.note = fmt("%d appends, %zu symbols", steps, id.size());
}

/* ---- C31: hash table against a multimap ---- */
GEN(31)
struct HT { std::unordered_map<const void *, uint64_t> key; int kind; uint64_t probe; };
static HT *ht_now;
static size_t ht_hash_key(int kind, uint64_t k)
{
	switch (kind) {
	case 0: return k;
	case 1: return 0;			/* everything collides */
	case 2: return k & 3;
	case 3: return k << 40;			/* differs in the high bits only */
	case 4: return ~size_t(0);
	default: return mix(k, 7);
	}
}
static size_t ht_rehash(const void *e, void *priv) { HT *h = (HT *)priv; return ht_hash_key(h->kind, h->key.at(e)); }
static bool ht_cmp(const void *a, const void *b) { return *(const uint64_t *)a == ht_now->key.at(b); }	/* a: searched key, b: element */
static void ht_collect(void *e, void *ctx) { ((std::vector<void *> *)ctx)->push_back(e); }
static void eval31(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	HT H;
	H.kind = q.below(6);
	ht_now = &H;
	g_mon.start();
	void *t = u_ht_new(ht_cmp, ht_rehash, &H);
	std::multimap<uint64_t, void *> M;
	bool large = q.p(0.001);
	if (large) H.kind = q.p(0.5) ? 0 : 5;
	int steps = large ? q.range(100000, 400000) : q.p(0.1) ? 4000 : q.p(0.02) ? lit_of(q, 1, 70000) : 400;
	if (steps > 4000 && !large && (H.kind >= 1 && H.kind <= 4)) steps = 4000;	/* collisions cost */
	uint64_t keys = large ? 1000000 : q.pick(std::vector<uint64_t>{ 3, 30, 300, 100000 });
	bool oom = q.p(0.3);
	double grow = large ? 0.9 : 0.6, visits = std::min(0.03, 60.0 / steps);
	static const uint64_t base[] = { 0x555555550000ull, 0x7ffff7000000ull, 0x10000000ull, 0x602000000000ull };
	int nb = q.range(1, 4), sh = q.pick(std::vector<int>{ 3, 4, 5, 12 });
	auto check_all = [&]() -> bool {
		std::vector<void *> got;
		u_ht_visit(t, ht_collect, &got);
		std::multiset<void *> a(got.begin(), got.end()), b;
		for (auto &e : M) b.insert(e.second);
		r.evals++; r.n["visits"]++; r.n["max_elements"] = std::max<uint64_t>(r.n["max_elements"], M.size());
		return a == b;
	};
	for (int k = 0; k < steps; k++) {
		if (q.p(large ? 0.00003 : 0.02)) grow = q.pick(std::vector<double>{ 0.2, 0.5, 0.8 });
		uint64_t key = q.below(keys);
		size_t h = ht_hash_key(H.kind, key);
		int op = q.w({ 50, 25, 1 });
		r.n["operations"]++;
		r.evals++;
		if (op == 0 && q.p(grow)) {
			void *e = (void *)(q.p(0.1) ? q.next() >> q.below(60) | 2 : base[q.below(nb)] + (q.below(large ? 500000 : 5000) << sh));
			if (H.key.count(e)) continue;	/* every element is in the table once */
			H.key[e] = key;
			if (oom && q.p(0.3)) g_mon.fail_in = 0;
			uint64_t f0 = g_mon.fired;
			int ret = u_ht_insert(t, e, h);
			g_mon.fail_in = -1;
			if (ret) {
				H.key.erase(e);
				if (ret != -ENOMEM || g_mon.fired == f0) { r.fail("insert", fmt("insert returned %d", ret)); break; }
				r.n["failed_for_memory"]++;
			} else { M.insert({ key, e }); if (g_mon.fired != f0) { r.fail("insert", "a failed allocation was not reported"); break; } }
		} else if (op == 0) {
			void *out = nullptr;
			bool got = u_ht_remove(t, &key, h, &out), want = M.count(key);
			if (got != want) { r.fail("remove", fmt("removing key %llu %s", (unsigned long long)key, got ? "found something that is not in the table" : "did not find it")); break; }
			if (got) {
				auto rg = M.equal_range(key);
				auto i = rg.first;
				while (i != rg.second && i->second != out) ++i;
				if (i == rg.second) { r.fail("remove", "removed an element with another key or one that was removed before"); break; }
				M.erase(i); H.key.erase(out); r.n["removed"]++;
			}
		} else if (op == 1) {
			void *out = nullptr;
			bool got = u_ht_lookup(t, &key, h, &out), want = M.count(key);
			if (got != want) { r.fail("lookup", fmt("key %llu is %s in the table of %zu elements but was %sfound", (unsigned long long)key, want ? "" : "not", M.size(), got ? "" : "not ")); break; }
			if (got && H.key.count(out) && H.key[out] != key) { r.fail("lookup", "found an element with another key"); break; }
			if (got && !H.key.count(out)) { r.fail("lookup", "found an element that was removed"); break; }
		} else if (q.p(large ? 0.0005 : 0.1)) {
			std::vector<void *> got;
			u_ht_clear(t, ht_collect, &got);
			std::multiset<void *> a(got.begin(), got.end()), b;
			for (auto &e : M) b.insert(e.second);
			if (a != b) { r.fail("clear", fmt("clear released %zu of %zu elements", got.size(), M.size())); break; }
			M.clear(); H.key.clear();
			r.n["clears"]++;
		}
		if (q.p(visits) && !check_all()) { r.fail("visit", "a visit does not show exactly the elements of the table"); break; }
	}
	if (r.msg.empty() && !check_all()) r.fail("visit", "a visit does not show exactly the elements of the table");
	if (r.msg.empty()) for (auto &e : M) { uint64_t k = e.first; void *o; r.evals++; if (!u_ht_lookup(t, &k, ht_hash_key(H.kind, k), &o)) { r.fail("lookup", "an element got lost"); break; } }
	std::vector<void *> got;
	u_ht_free(t, ht_collect, &got);
	if (r.msg.empty() && got.size() != M.size()) r.fail("clear", "clear does not release every element");
	/* string and integer keys */
	if (r.msg.empty()) {
		void *s = u_hts_new(q.p(0.5)), *u = u_htu_new(q.p(0.5));
		size_t N = q.p(0.03) ? 2000 : 40;
		std::vector<std::pair<char *, bool>> st(N);
		std::vector<unsigned long> nums(N);
		std::vector<bool> in(N);
		std::vector<size_t> hs(N);	/* hashes an application keeps to save time */
		for (size_t i = 0; i < N; i++) { std::string x = q.p(0.02) ? "" : "k"; for (int n = q.below(6); n--; ) x += char(q.p(0.1) ? q.range(0x80, 0xff) : 'a' + q.below(3)); x += std::to_string(i); st[i] = { strdup(x.c_str()), false }; nums[i] = q.p(0.3) ? q.below(10) + i * 16 : q.next(); }
		nums[0] = 0; nums[1] = ULONG_MAX;
		auto seen = [&](bool clear) {
			std::vector<char **> a; std::vector<unsigned long *> b;
			auto ca = [](char **e, void *ctx) { ((std::vector<char **> *)ctx)->push_back(e); };
			auto cb = [](unsigned long *e, void *ctx) { ((std::vector<unsigned long *> *)ctx)->push_back(e); };
			if (clear) u_hts_clear(s, ca, &a), u_htu_clear(u, cb, &b); else u_hts_visit(s, ca, &a), u_htu_visit(u, cb, &b);
			size_t na = 0, nb = 0;
			for (size_t i = 0; i < N; i++) { na += st[i].second; nb += in[i]; }
			std::set<char **> sa(a.begin(), a.end()); std::set<unsigned long *> sb(b.begin(), b.end());
			bool ok = a.size() == na && b.size() == nb && sa.size() == na && sb.size() == nb;
			for (size_t i = 0; i < N; i++) if (st[i].second != sa.count(&st[i].first) || in[i] != sb.count(&nums[i])) ok = false;
			if (clear) for (size_t i = 0; i < N; i++) st[i].second = in[i] = false;
			r.evals++; r.n["typed_visits"]++;
			if (!ok) r.fail(clear ? "clear" : "visit", fmt("a table with string or integer keys %s %zu and %zu elements, there are %zu and %zu", clear ? "releases" : "shows", a.size(), b.size(), na, nb));
		};
		for (size_t k = 0; k < 5 * N && r.msg.empty(); k++) {
			size_t i = q.below(N);
			char **o = nullptr; unsigned long *p = nullptr; size_t fresh = 0, *hash = q.p(0.3) ? nullptr : q.p(0.5) ? &hs[i] : &fresh;
			r.evals += 2;
			switch (q.w({ 8, 5, 8, 1 })) {
			case 0:
				if (!st[i].second) { if (u_hts_insert(s, &st[i].first, hash)) r.fail("str", "insert failed"); st[i].second = true; }
				if (!in[i]) { if (u_htu_insert(u, &nums[i])) r.fail("ulong", "insert failed"); in[i] = true; }
				break;
			case 1:
				if (u_hts_remove(s, st[i].first, hash, &o) != st[i].second || (st[i].second && o != &st[i].first)) r.fail("str", "remove: wrong result");
				if (u_htu_remove(u, nums[i], &p) != in[i] || (in[i] && *p != nums[i])) r.fail("ulong", "remove: wrong result");
				st[i].second = in[i] = false;
				break;
			case 3:
				if (q.p(10.0 / N)) seen(q.p(0.2));
				break;
			default: {
				std::string copy = st[i].first;
				if (u_hts_lookup(s, copy.c_str(), hash, &o) != st[i].second || (st[i].second && o != &st[i].first)) r.fail("str", "lookup: wrong result");
				unsigned long cp = nums[i];
				if (u_htu_lookup(u, cp, &p) != in[i] || (in[i] && *p != nums[i])) r.fail("ulong", "lookup: wrong result");
			} }
		}
		if (r.msg.empty()) seen(false);
		if (r.msg.empty()) seen(q.p(0.5));
		u_ht_free(s, nullptr, nullptr); u_ht_free(u, nullptr, nullptr);
		for (auto &x : st) free(x.first);
	}
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left", g_mon.live));
	if (r.msg.empty() && g_mon.bad_free) r.fail("free", "freed something that was not allocated");
	g_mon.stop();
	r.state = mix(M.size(), H.kind * 1000003 + r.n["operations"]) ^ (uint64_t)c.p[0];
	r.note = fmt("hash kind %d, %d operations, %zu elements at the end", H.kind, steps, M.size());
}

/* ---- C32: ring buffer against a queue of bytes ---- */
GEN(32)
static void eval32(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	g_mon.start();
	void *t = u_ring_new();
	std::string M;
	size_t head = 0, serial = 0;	/* M[head..] is the content */
	int steps = q.range(50, 400);
	bool oom = q.p(0.4);
	int big = q.below(3);
	auto len = [&]() -> size_t { switch (q.w({ 30, 20, 15, 10 })) { case 0: return q.below(20); case 1: return q.below(big ? 3000 : 300); case 2: return q.p(0.2) ? lit_of(q, 1, 70000) : 4096 + q.range(-2, 2); default: if (big == 2 && q.p(0.02)) return (size_t(1) << q.range(16, 21)) + q.range(-1, 1); return big == 2 ? q.below(40000) : q.below(5000); } };
	auto used = [&] { return M.size() - head; };
	auto content = [&](const char *after) -> bool {
		struct iovec v[2] = { { nullptr, 777 }, { nullptr, 777 } };
		size_t n = u_ring_peek(t, v), total = 0;
		r.evals++;
		if (n > 2) return r.fail("peek", fmt("%s: peek returned %zu", after, n));
		std::string got;
		for (size_t i = 0; i < n; i++) { if (!v[i].iov_len) return r.fail("peek", fmt("%s: empty segment", after)); total += v[i].iov_len; if (total > used()) return r.fail("peek", fmt("%s: %zu or more bytes in the ring, expected %zu", after, total, used())); got.append((char *)v[i].iov_base, v[i].iov_len); }
		if (u_ring_peek(t, nullptr) != n) return r.fail("peek", "peek without a vector differs");
		if (u_ring_size(t) != used() || got.size() != used()) return r.fail("size", fmt("%s: %zu bytes in the ring (%zu visible), expected %zu", after, u_ring_size(t), got.size(), used()));
		if (got.compare(0, std::string::npos, M, head, std::string::npos)) return r.fail("content", fmt("%s: the ring holds other bytes than were pushed", after));
		if (n == 2) r.n["wrapped_states"]++;
		return true;
	};
	for (int k = 0; k < steps; k++) {
		r.n["operations"]++;
		const char *what = "";
		switch (q.w({ 40, 35, 10, 2, 1, 2 })) {
		case 0: {
			what = "push";
			size_t n = len();
			std::string d(n, 0);
			for (auto &x : d) x = char(serial++ * 31 >> 2);
			if (oom && q.p(0.4)) g_mon.fail_in = 0;
			uint64_t f0 = g_mon.fired;
			int ret = u_ring_push(t, d.data(), n);
			g_mon.fail_in = -1;
			if (ret == 0) { M += d; r.n["bytes_pushed"] += n; if (g_mon.fired != f0) { r.fail("push", "failed allocation not reported"); goto out; } }
			else if (ret != -ENOMEM || g_mon.fired == f0) { r.fail("push", fmt("push of %zu bytes returned %d", n, ret)); goto out; }
			else { r.n["failed_for_memory"]++; what = "failed push"; }
			break;
		}
		case 1: { what = "pull"; size_t n = q.p(0.1) ? used() : q.p(0.05) ? used() + q.below(10) : q.p(0.02) ? SIZE_MAX - q.below(3) : len(); u_ring_pull(t, n); head += std::min(n, used()); break; }
		case 2: {
			what = "copy";
			size_t n = q.p(0.3) ? used() + q.below(5) : q.below(used() + 1);
			char *b = (char *)malloc(n + 1);
			size_t got = u_ring_copy(t, b, n);
			bool ok = got == std::min(n, used()) && !memcmp(b, M.data() + head, got);
			free(b);
			if (!ok) { r.fail("copy", "copy gives other bytes"); goto out; }
			break;
		}
		case 3: what = "flush"; u_ring_flush(t); head = M.size(); break;
		case 4: what = "clear"; u_ring_clear(t); head = M.size(); break;
		default: {
			what = "impossible push";
			size_t n = q.pick(std::vector<size_t>{ SIZE_MAX, SIZE_MAX - 5000, size_t(1) << 63, (size_t(1) << 63) + 1, size_t(1) << 62 });
			int ret = u_ring_push(t, "x", n);
			if (ret != -ENOMEM) { r.fail("push", fmt("push of %zu bytes returned %d", n, ret)); goto out; }
		} }
		if (head > 1 << 20) { M.erase(0, head); head = 0; }
		if (!content(what)) goto out;
	}
out:
	u_ring_free(t);
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left", g_mon.live));
	g_mon.stop();
	r.state = mix(serial, used());
	r.note = fmt("%d operations, %zu bytes pushed", steps, serial);
}

/* ---- C42: dynamic array against a vector ---- */
GEN(42)
static void eval42(const Case &c, Result &r)
{
	Rng q(c.p[0]);
	g_mon.start();
	void *t = nullptr;
	size_t es = q.pick(std::vector<size_t>{ 1, 2, 4, 8, 8, 12, 40 }), serial = 0;
	bool oom = q.p(0.4);
	std::vector<std::string> M;
	for (int k = 0; k < 3; k++) {
		g_mon.fail_in = k;
		int ret = u_arr_new(&t, es, q.pick(std::vector<size_t>{ 0, 1, 2, 4, 7 }));
		g_mon.fail_in = -1;
		if (ret == 0) break;
		if (ret != -ENOMEM || g_mon.live) { r.fail("new", fmt("failed creation returned %d and left %zu blocks", ret, g_mon.live)); g_mon.stop(); return; }
		r.n["failed_for_memory"]++;
		if (k == 2) { r.fail("new", "creation fails without a reason"); g_mon.stop(); return; }
	}
	int steps = q.range(50, 400);
	for (int k = 0; k < steps && r.msg.empty(); k++) {
		r.n["operations"]++;
		if (oom && q.p(0.3)) g_mon.fail_in = 0;
		uint64_t f0 = g_mon.fired;
		switch (q.w({ 50, 25, 12 })) {
		case 0: {
			std::string d(es, 0);
			for (auto &x : d) x = char(++serial);
			std::string copy = d;
			int ret = u_arr_push(t, &d[0]);
			d.assign(es, 'x');	/* the array holds a copy */
			if (ret == 0) M.push_back(copy);
			else if (ret != -ENOMEM || g_mon.fired == f0) r.fail("push", fmt("push returned %d", ret));
			if (ret == 0 && g_mon.fired != f0) r.fail("push", "failed allocation not reported");
			break;
		}
		case 1: u_arr_pop(t); if (!M.empty()) M.pop_back(); break;
		default: {
			size_t n = q.p(0.05) ? lit_of(q, 0, 70000) : q.p(0.4) ? q.below(40) : q.p(0.5) ? M.size() + q.below(10) : q.below(M.size() + 1);
			int ret = u_arr_zresize(t, n);
			if (ret == 0) M.resize(n, std::string(es, 0));
			else if (ret != -ENOMEM || g_mon.fired == f0) r.fail("resize", fmt("resize returned %d", ret));
		} }
		g_mon.fail_in = -1;
		r.evals++;
		if (g_mon.fired != f0) r.n["failed_for_memory"]++;
		if (!r.msg.empty()) break;
		if (u_arr_len(t) != M.size() || u_arr_bsize(t) != M.size() * es || u_arr_es(t) != es) { r.fail("length", fmt("length %zu, expected %zu", u_arr_len(t), M.size())); break; }
		const char *p = (const char *)u_arr_data(t);
		for (size_t i = 0; i < M.size(); i++) if (memcmp(p + i * es, M[i].data(), es)) { r.fail("content", fmt("element %zu of %zu changed its value", i, M.size())); break; }
	}
	for (int k = 0; k < 20 && r.msg.empty(); k++) {	/* capacity rounding */
		size_t v = q.p(0.5) ? q.below(5000) : (size_t(1) << q.below(63)) + q.range(-1, 1), p = u_pow2(v), e = 1;
		while (e < v) e *= 2;
		if (!v) e = 4;
		r.evals++;
		if (p != e) r.fail("pow2", fmt("next power of two of %zu is %zu, got %zu", v, e, p));
	}
	u_arr_free(t);
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left", g_mon.live));
	g_mon.stop();
	r.state = mix(serial * 64 + es, M.size());
	r.note = fmt("%d operations on elements of %zu bytes", steps, es);
}

/* ---- C33: pseudo terminals and the bridge ---- */
GEN(33)
static struct { bool on; Rng *r; double p_intr, p_short; uint64_t intr, shorts; std::map<int, uint64_t> written; } io;
extern "C" {
ssize_t vt_read(int fd, void *b, size_t n)
{
	if (io.on) {
		if (io.r->p(io.p_intr)) { io.intr++; errno = EINTR; return -1; }
		if (n > 1 && io.r->p(io.p_short)) { io.shorts++; n = 1 + io.r->below(std::min<size_t>(n, 50)); }
	}
	return read(fd, b, n);
}
ssize_t vt_write(int fd, const void *b, size_t n)
{
	if (io.on) {
		if (io.r->p(io.p_intr)) { io.intr++; errno = EINTR; return -1; }
		if (n > 1 && io.r->p(io.p_short)) { io.shorts++; n = 1 + io.r->below(n); }
	}
	ssize_t ret = write(fd, b, n);
	if (ret > 0) io.written[fd] += ret;
	return ret;
}
ssize_t vt_writev(int fd, const struct iovec *v, int n)
{
	ssize_t ret;
	if (io.on) {
		if (io.r->p(io.p_intr)) { io.intr++; errno = EINTR; return -1; }
		if (io.r->p(io.p_short)) { io.shorts++; struct iovec w = v[0]; w.iov_len = 1 + io.r->below(w.iov_len); ret = writev(fd, &w, 1); if (ret > 0) io.written[fd] += ret; return ret; }
	}
	ret = writev(fd, v, n);
	if (ret > 0) io.written[fd] += ret;
	return ret;
}
int vt_epoll_wait(int fd, struct epoll_event *e, int n, int t) { if (io.on && io.r->p(io.p_intr / 2)) { io.intr++; errno = EINTR; return -1; } return epoll_wait(fd, e, n, t); }
}
static unsigned char stream(uint64_t seed, uint64_t pos) { return mix(seed, pos / 8) >> (pos % 8 * 8); }
static volatile int n_winch, n_int;
static void on_sig(int s) { if (s == SIGWINCH) n_winch = n_winch + 1; else n_int = n_int + 1; }
static void full_write(int fd, const void *b, size_t n) { const char *p = (const char *)b; while (n) { ssize_t k = write(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) _exit(9); p += k; n -= k; } }
static std::set<int> descriptors(bool inherited_only)
{
	std::set<int> s;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return s;
	while (struct dirent *e = readdir(d)) { int f = atoi(e->d_name); if (e->d_name[0] != '.' && f != dirfd(d) && (!inherited_only || (f > 2 && !(fcntl(f, F_GETFD) & FD_CLOEXEC)))) s.insert(f); }
	closedir(d);
	return s;
}
static std::set<int> inherited;		/* descriptors a program started by this process would inherit anyway */
/* the process behind the pseudo terminal: reports what it receives, writes what it is told to */
static void child_main(int ctl, int seen, uint64_t seed)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	alarm(120);
	struct termios a;
	struct sigaction sa = {};
	int sig = 0;
	sigset_t set;
	for (int i = 1; i < SIGSYS; i++) if (i != SIGKILL && i != SIGSTOP && !sigaction(i, nullptr, &sa) && sa.sa_handler != SIG_DFL && i != SIGALRM) sig = i;
	sigprocmask(SIG_SETMASK, nullptr, &set);
	for (int i = 1; i < SIGSYS; i++) if (sigismember(&set, i) == 1) sig = 100 + i;
	for (int f : descriptors(true)) if (!inherited.count(f)) sig = 200;
	sa = {};
	sa.sa_handler = on_sig; sa.sa_flags = SA_RESTART;
	sigaction(SIGWINCH, &sa, nullptr); sigaction(SIGINT, &sa, nullptr);
	char rep[8] = { 'r' };
	rep[1] = tcgetattr(0, &a) == 0; rep[2] = a.c_cc[VERASE] == 8; rep[3] = !!(a.c_iflag & IUTF8);
	rep[4] = isatty(0) && isatty(1) && isatty(2); rep[5] = getsid(0) == getpid(); rep[6] = tcgetpgrp(0) == getpid(); rep[7] = sig;
	a.c_iflag &= IUTF8; a.c_oflag = 0; a.c_lflag = ISIG; a.c_cc[VMIN] = 1; a.c_cc[VTIME] = 0;
	a.c_cc[VINTR] = a.c_cc[VQUIT] = a.c_cc[VSUSP] = _POSIX_VDISABLE;
	tcsetattr(0, TCSANOW, &a);
	full_write(ctl, rep, 8);
	uint64_t out = 0;
	bool paused = false;
	char buf[4096];
	for (;;) {
		struct pollfd p[2] = { { ctl, POLLIN, 0 }, { 0, (short)(paused ? 0 : POLLIN), 0 } };
		if (poll(p, paused ? 1 : 2, -1) < 0) continue;
		if (p[0].revents & (POLLHUP | POLLERR)) _exit(0);
		if (p[0].revents & POLLIN) {
			struct { char c; uint32_t n; } __attribute__((packed)) cmd;
			if (recv(ctl, &cmd, sizeof cmd, MSG_WAITALL) != (ssize_t)sizeof cmd) _exit(0);
			char ack[8] = { cmd.c };
			switch (cmd.c) {
			case 'W': for (uint32_t k = 0; k < cmd.n; ) { size_t n = std::min<size_t>(sizeof buf, cmd.n - k); for (size_t i = 0; i < n; i++) buf[i] = stream(seed, out + i); full_write(1, buf, n); out += n; k += n; } break;
			case 'P': paused = true; break;
			case 'U': paused = false; break;
			case 'S': { struct winsize ws; ioctl(0, TIOCGWINSZ, &ws); memcpy(ack + 1, &ws.ws_col, 2); memcpy(ack + 3, &ws.ws_row, 2); ack[5] = n_winch; ack[6] = n_int; break; }
			case 'Q': _exit(7);
			}
			full_write(ctl, ack, 8);
		}
		if (!paused && (p[1].revents & (POLLIN | POLLHUP))) {
			ssize_t n = read(0, buf, sizeof buf);
			if (n <= 0) { if (n < 0 && errno == EINTR) continue; _exit(0); }
			full_write(seen, buf, n);
		}
	}
}
struct Pty {
	struct shl_pty *p = nullptr;
	int ctl = -1, seen = -1, fd = -1;
	pid_t pid = -1;
	uint64_t seed_in = 0, seed_out = 0;	/* to the child, from the child */
	uint64_t pushed = 0, child_got = 0, child_wrote = 0, got = 0;
	bool paused = false;
	uint64_t deliveries = 0;
	Result *r = nullptr;
	std::string acks;
	bool in_bridge = false;
};
static void pty_input(struct shl_pty *pty, void *data, char *u8, size_t len)
{
	Pty *P = (Pty *)data;
	P->deliveries++;
	if (P->p && pty != P->p) P->r->fail("input", "input delivered for another terminal");
	for (size_t i = 0; i < len; i++)
		if ((unsigned char)u8[i] != stream(P->seed_out, P->got + i)) { P->r->fail("order", fmt("byte %llu from the child is wrong: lost, repeated or reordered data", (unsigned long long)(P->got + i))); break; }
	P->got += len;
	if (P->got > P->child_wrote + (1 << 24)) P->r->fail("input", "more data than the child wrote");
}
static bool drain_seen(Pty &P, Result &r)
{
	char b[8192];
	ssize_t n;
	while ((n = read(P.seen, b, sizeof b)) > 0) {
		for (ssize_t i = 0; i < n; i++)
			if ((unsigned char)b[i] != stream(P.seed_in, P.child_got + i)) return r.fail("order", fmt("byte %llu to the child is wrong: lost, repeated or reordered data", (unsigned long long)(P.child_got + i)));
		P.child_got += n;
	}
	if (P.child_got > P.pushed) return r.fail("order", "the child got more data than was written");
	while ((n = recv(P.ctl, b, sizeof b, MSG_DONTWAIT)) > 0) P.acks.append(b, n);
	return r.msg.empty();
}
static void eval33(const Case &c, Result &r)
{
	Rng q(c.p[0]), ioq(c.p[0] + 1);
	io.on = false; io.r = &ioq; io.intr = io.shorts = 0; io.written.clear();
	io.p_intr = q.pick(std::vector<double>{ 0, 0, 0.05, 0.3 }); io.p_short = q.pick(std::vector<double>{ 0, 0.1, 0.5 });
	std::set<int> before = descriptors(false);
	g_mon.start();
	int N = q.range(1, 3);
	Pty P[3];
	int bridge = shl_pty_bridge_new();
	if (bridge < 0) FAIL("bridge", "cannot create a bridge: %d", bridge);
	/* send a command to the child and keep everything moving until it answers */
	auto pump = [&](int timeout) -> int {
		struct pollfd pf[1 + 6];
		int n = 0;
		pf[n++] = { bridge, POLLIN, 0 };
		for (int i = 0; i < N; i++) { pf[n++] = { P[i].ctl, POLLIN, 0 }; pf[n++] = { P[i].seen, POLLIN, 0 }; }
		int k = poll(pf, n, timeout);
		if (k > 0 && pf[0].revents) { int ret = shl_pty_bridge_dispatch(bridge, 0); if (ret) r.fail("bridge", fmt("dispatch returned %d", ret)); r.n["dispatches"]++; }
		for (int i = 0; i < N; i++) drain_seen(P[i], r);
		return k;
	};
	auto stalled = [&]() -> bool {		/* a wake-up that will never come: data or space is there, the bridge does not say so */
		for (int i = 0; i < N; i++) {
			if (P[i].fd < 0 || !P[i].in_bridge) continue;
			bool pend_in = P[i].got < P[i].child_wrote, pend_out = io.written[P[i].fd] < P[i].pushed && (!P[i].paused || P[i].pushed - P[i].child_got < 2000);
			for (int k = 0; k < 4; k++) {
				struct pollfd f = { P[i].fd, (short)((pend_in ? POLLIN : 0) | (pend_out ? POLLOUT : 0)), 0 };
				if (!f.events || poll(&f, 1, 0) <= 0 || !(f.revents & f.events)) break;
				struct pollfd b = { bridge, POLLIN, 0 };
				if (poll(&b, 1, 250) > 0) break;
				if (k == 3) { r.fail("stall", fmt("terminal %d: %s but the bridge reports nothing any more", i, f.revents & POLLIN ? "data to be read" : "data to be written and room for it")); return true; }
			}
		}
		return false;
	};
	auto command = [&](int i, char cmd, uint32_t n) -> std::string {
		struct { char c; uint32_t n; } __attribute__((packed)) m = { cmd, n };
		if (send(P[i].ctl, &m, sizeof m, MSG_NOSIGNAL) != (ssize_t)sizeof m) return "";
		P[i].acks.clear();
		if (cmd == 'W') P[i].child_wrote += n;
		for (int idle = 0; P[i].acks.size() < 8 && r.msg.empty(); ) {
			if (pump(200) == 0 && ++idle > 3) { if (stalled()) break; if (idle > 50) { r.n["inconclusive"]++; r.fail("", ""); return ""; } }
		}
		return P[i].acks;
	};
	unsigned short ws[3][2];
	for (int i = 0; i < N; i++) {
		int sv[2], pp[2];
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) || pipe2(pp, O_CLOEXEC)) abort();
		P[i].seed_in = q.next(); P[i].seed_out = q.next(); P[i].r = &r;
		ws[i][0] = q.range(1, 200); ws[i][1] = q.range(1, 100);
		if (q.p(0.2)) {	/* no descriptors left: refused without a trace */
			struct rlimit old, few;
			getrlimit(RLIMIT_NOFILE, &old);
			std::set<int> have = descriptors(false);
			size_t live = g_mon.live;
			int room = q.range(0, 2), n = 0, top = 0;
			while (n <= room) { if (!have.count(top)) n++; top++; }	/* the first number that is one too many */
			few = old; few.rlim_cur = top - 1;
			setrlimit(RLIMIT_NOFILE, &few);
			struct shl_pty *none = nullptr;
			pid_t pid = shl_pty_open(&none, pty_input, &P[i], 10, 10);
			setrlimit(RLIMIT_NOFILE, &old);
			if (pid == 0) _exit(1);
			r.evals++; r.n["opens_without_descriptors"]++;
			if (pid > 0 || none) { r.fail("open", "a terminal could be opened without descriptors for it"); if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
			else if (pid != -EMFILE) r.fail("open", fmt("without descriptors opening returned %d", (int)pid));
			else if (descriptors(false) != have || g_mon.live != live) r.fail("open", "opening failed and left descriptors or memory behind");
			if (!r.msg.empty()) { close(sv[0]); close(sv[1]); close(pp[0]); close(pp[1]); goto out; }
		}
		/* the application's own way with signals is not the child's */
		struct sigaction keep[3];
		sigset_t mask0, mask;
		static const int sigs[] = { SIGPIPE, SIGUSR1, SIGHUP };
		for (int k = 0; k < 3; k++) { struct sigaction sa = {}; sa.sa_handler = q.p(0.5) ? SIG_IGN : q.p(0.5) ? on_sig : SIG_DFL; sigaction(sigs[k], &sa, &keep[k]); }
		sigemptyset(&mask);
		for (int s : { SIGUSR1, SIGUSR2, SIGTERM, SIGINT, SIGWINCH, SIGCHLD }) if (q.p(0.4)) sigaddset(&mask, s);
		sigprocmask(SIG_BLOCK, &mask, &mask0);
		inherited = descriptors(true);
		io.on = true;
		pid_t pid = shl_pty_open(&P[i].p, pty_input, &P[i], ws[i][0], ws[i][1]);
		if (pid == 0) { io.on = false; close(sv[0]); close(pp[0]); if (P[i].p) _exit(8); child_main(sv[1], pp[1], P[i].seed_out); }
		io.on = false;
		sigprocmask(SIG_SETMASK, &mask0, nullptr);
		for (int k = 0; k < 3; k++) sigaction(sigs[k], &keep[k], nullptr);
		close(sv[1]); close(pp[1]);
		P[i].ctl = sv[0]; P[i].seen = pp[0]; P[i].pid = pid;
		fcntl(P[i].seen, F_SETFL, O_NONBLOCK);
		if (pid < 0 || !P[i].p) { r.fail("open", fmt("cannot open a pseudo terminal: %d", (int)pid)); N = i + 1; goto out; }
		P[i].fd = shl_pty_get_fd(P[i].p);
		io.written[P[i].fd] = 0;
		char rep[8] = {};
		if (recv(P[i].ctl, rep, 8, MSG_WAITALL) != 8) { r.fail("open", "the child did not come up on its terminal"); N = i + 1; goto out; }
		r.evals++;
		if (rep[1] != 1 || rep[2] != 1 || rep[3] != 1) { r.fail("setup", fmt("terminal attributes of the child: erase character %d, UTF-8 input %d", rep[2], rep[3])); N = i + 1; goto out; }
		if (rep[4] != 1 || rep[5] != 1 || rep[6] != 1) { r.fail("setup", "the terminal is not the controlling terminal and standard streams of the child"); N = i + 1; goto out; }
		if (rep[7]) { r.fail("setup", (unsigned char)rep[7] == 200 ? std::string("the child inherits descriptors of the layer") : rep[7] > 100 ? fmt("signal %d is blocked in the child", rep[7] - 100) : fmt("signal %d is not handled by default in the child", rep[7])); N = i + 1; goto out; }
		if (!(fcntl(P[i].fd, F_GETFD) & FD_CLOEXEC) || !(fcntl(P[i].fd, F_GETFL) & O_NONBLOCK)) { r.fail("setup", "the terminal's descriptor would be inherited by programs, or blocks"); N = i + 1; goto out; }
		if (!shl_pty_is_open(P[i].p) || shl_pty_get_child(P[i].p) != pid || P[i].fd < 0) { r.fail("open", "wrong state after opening"); N = i + 1; goto out; }
		int ret = shl_pty_bridge_add(bridge, P[i].p);
		if (ret) { r.fail("bridge", fmt("cannot add a terminal to the bridge: %d", ret)); N = i + 1; goto out; }
		P[i].in_bridge = true;
	}
	io.on = true;
	{
		int steps = q.range(5, 25);
		for (int k = 0; k < steps && r.msg.empty(); k++) {
			int i = q.below(N);
			switch (q.w({ 30, 25, 6, 6, 6, 3, 12 })) {
			case 0: {	/* write, as the terminal does: queue, then dispatch once */
				size_t n = q.p(0.6) ? q.below(200) : q.p(0.7) ? q.below(6000) : q.below(80000);
				std::string d(n, 0);
				for (size_t j = 0; j < n; j++) d[j] = stream(P[i].seed_in, P[i].pushed + j);
				int ret = shl_pty_write(P[i].p, d.data(), n);
				if (ret) { r.fail("write", fmt("write returned %d", ret)); break; }
				P[i].pushed += n; r.n["bytes_to_children"] += n;
				ret = shl_pty_bridge_dispatch_pty(bridge, P[i].p);
				if (ret) r.fail("bridge", fmt("dispatch of one terminal returned %d", ret));
				/* what the kernel has plenty of room for is written although the child does not read */
				for (int idle = 0; r.msg.empty() && P[i].paused && P[i].pushed - P[i].child_got < 2000 && io.written[P[i].fd] < P[i].pushed; ) {
					r.n["writes_to_idle_child"]++;
					if (pump(60) == 0 && ++idle > 3 && (stalled() || idle > 20)) break;
				}
				break;
			}
			case 1: { uint32_t n = q.p(0.6) ? q.below(200) : q.p(0.7) ? q.below(10000) : q.below(150000); r.n["bytes_from_children"] += n; command(i, 'W', n); break; }
			case 2: command(i, 'P', 0); P[i].paused = true; break;
			case 3: P[i].paused = false; command(i, 'U', 0); break;
			case 4: {
				ws[i][0] = q.range(1, 65535); ws[i][1] = q.range(1, 65535);
				int ret = shl_pty_resize(P[i].p, ws[i][0], ws[i][1]);
				if (ret) { r.fail("resize", fmt("resize returned %d", ret)); break; }
				std::string a = command(i, 'S', 0);
				if (a.size() < 8) break;
				unsigned short col, row; memcpy(&col, a.data() + 1, 2); memcpy(&row, a.data() + 3, 2);
				r.evals++; r.n["resizes"]++;
				if (col != ws[i][0] || row != ws[i][1]) r.fail("resize", fmt("the child sees %ux%u, expected %ux%u", col, row, ws[i][0], ws[i][1]));
				if (r.msg.empty() && !a[5]) r.fail("resize", "the child got no notice of the resize");
				break;
			}
			case 5: {
				std::string a = command(i, 'S', 0);
				int ret = shl_pty_signal(P[i].p, SIGINT);
				std::string b = command(i, 'S', 0);
				if (a.size() < 8 || b.size() < 8) break;
				r.evals++; r.n["signals"]++;
				if (ret || b[6] != char(a[6] + 1)) r.fail("signal", fmt("signal returned %d, the child got %d", ret, b[6] - a[6]));
				break;
			}
			default: pump(q.below(5)); break;
			}
		}
		/* everything arrives once the children read again */
		for (int i = 0; i < N && r.msg.empty(); i++) if (P[i].paused) { P[i].paused = false; command(i, 'U', 0); }
		for (int idle = 0; r.msg.empty(); ) {
			bool done = true;
			for (int i = 0; i < N; i++) if (P[i].child_got < P[i].pushed || P[i].got < P[i].child_wrote) done = false;
			if (done) break;
			if (pump(200) == 0 && ++idle > 3) { if (stalled()) break; if (idle > 100) { r.n["inconclusive"]++; break; } }
		}
		for (int i = 0; i < N; i++) { r.evals += 2; r.n["deliveries"] += P[i].deliveries; if (r.msg.empty() && P[i].got > P[i].child_wrote) r.fail("order", "more data than the child wrote"); }
		/* the initial size of terminals that were not resized */
		for (int i = 0; i < N && r.msg.empty(); i++) { std::string a = command(i, 'S', 0); if (a.size() < 8) break; unsigned short col, row; memcpy(&col, a.data() + 1, 2); memcpy(&row, a.data() + 3, 2); r.evals++; if (col != ws[i][0] || row != ws[i][1]) r.fail("size", fmt("the child sees %ux%u, expected %ux%u", col, row, ws[i][0], ws[i][1])); }
		/* a removed terminal is silent, a closed one refuses service */
		if (r.msg.empty()) {
			int i = q.below(N);
			shl_pty_bridge_remove(bridge, P[i].p); P[i].in_bridge = false;
			uint64_t before = P[i].deliveries;
			struct { char c; uint32_t n; } __attribute__((packed)) m = { 'W', 10 };
			send(P[i].ctl, &m, sizeof m, MSG_NOSIGNAL);
			for (int k = 0; k < 5; k++) shl_pty_bridge_dispatch(bridge, 1);
			r.evals++;
			if (P[i].deliveries != before) r.fail("bridge", "a removed terminal still delivers data");
			P[i].child_wrote += 10;
			if (q.p(0.5)) { shl_pty_ref(P[i].p); shl_pty_unref(P[i].p); }
			shl_pty_close(P[i].p); shl_pty_close(P[i].p);
			if (shl_pty_is_open(P[i].p) || shl_pty_get_fd(P[i].p) != -EPIPE || shl_pty_dispatch(P[i].p) != -ENODEV || shl_pty_write(P[i].p, "x", 1) != -ENODEV ||
			    shl_pty_resize(P[i].p, 1, 1) != -ENODEV || shl_pty_signal(P[i].p, SIGINT) != -ENODEV || shl_pty_bridge_add(bridge, P[i].p) != -ENODEV) r.fail("closed", "a closed terminal is not refused");
			P[i].fd = -1;
		}
		if (shl_pty_dispatch(nullptr) != -ENODEV || shl_pty_open(nullptr, nullptr, nullptr, 1, 1) != -EINVAL || shl_pty_bridge_dispatch(-1, 0) != -EINVAL || shl_pty_bridge_dispatch_pty(bridge, nullptr) != -EINVAL ||
		    shl_pty_bridge_add(-1, P[0].p) != -EINVAL || shl_pty_get_fd(nullptr) != -EINVAL || shl_pty_get_child(nullptr) != -EINVAL || shl_pty_is_open(nullptr)) r.fail("args", "invalid arguments are not refused");
		if (r.key.empty()) r.msg.clear();
	}
out:
	io.on = false;
	for (int i = 0; i < N; i++) {
		if (P[i].ctl >= 0) close(P[i].ctl);
		if (P[i].seen >= 0) close(P[i].seen);
		if (P[i].p) shl_pty_unref(P[i].p);
		if (P[i].pid > 0) { kill(P[i].pid, SIGKILL); while (waitpid(P[i].pid, nullptr, 0) < 0 && errno == EINTR) ; }
	}
	shl_pty_bridge_free(bridge);
	r.evals++;
	if (r.msg.empty() && descriptors(false) != before) r.fail("leak", "descriptors left open");
	if (r.msg.empty() && g_mon.live) r.fail("leak", fmt("%zu blocks left", g_mon.live));
	g_mon.stop();
	r.n["interrupted_calls"] += io.intr; r.n["shortened_calls"] += io.shorts; r.n["terminals"] += N;
	r.state = (uint64_t)c.p[0] ^ io.intr * 7 ^ io.shorts;
	r.note = fmt("%d terminals, %llu bytes to and %llu bytes from the children, %llu interrupted and %llu shortened calls", N, (unsigned long long)r.n["bytes_to_children"], (unsigned long long)r.n["bytes_from_children"], (unsigned long long)io.intr, (unsigned long long)io.shorts);
}

extern const CheckDef util_checks[];
const CheckDef util_checks[] = {
	{ "C29", C29_ENUM + 2000, C29_ENUM + 200000, gen29, eval29 },
	{ "C30", 5000, 300000, gen30, eval30 },
	{ "C31", 15000, 900000, gen31, eval31 },
	{ "C32", 15000, 900000, gen32, eval32 },
	{ "C33", 3000, 200000, gen33, eval33 },
	{ "C42", 60000, 3000000, gen42, eval42 },
	{ nullptr, 0, 0, nullptr, nullptr }
};

#include "alloc.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <unordered_map>

AllocMon g_mon;
static std::unordered_map<void *, size_t> *blocks;
void AllocMon::start() { if (!blocks) blocks = new std::unordered_map<void *, size_t>; blocks->clear(); track = true; live = bytes = peak = 0; calls = fired = bad_free = 0; fail_in = -1; fail_all = false; }
void AllocMon::stop() { track = false; fail_in = -1; fail_all = false; }
static bool fails()
{
	if (!g_mon.track) return false;
	g_mon.calls++;
	if (g_mon.fail_in < 0) return false;
	if (g_mon.fail_in == 0) { g_mon.fired++; if (!g_mon.fail_all) g_mon.fail_in = -1; return true; }
	g_mon.fail_in--;
	return false;
}
static void add(void *p, size_t n)
{
	if (!p || !g_mon.track) return;
	(*blocks)[p] = n;
	g_mon.live++; g_mon.bytes += n;
	if (g_mon.bytes > g_mon.peak) g_mon.peak = g_mon.bytes;
}
static void del(void *p)
{
	if (!p || !g_mon.track) return;
	auto i = blocks->find(p);
	if (i == blocks->end()) { g_mon.bad_free++; return; }
	g_mon.live--; g_mon.bytes -= i->second;
	blocks->erase(i);
}
void user_free(void *p) { del(p); free(p); }
extern "C" {
static void fill(void *p, size_t from, size_t to) { if (g_mon.fill >= 0 && p && to > from) memset((char *)p + from, g_mon.fill, to - from); }
void *vt_malloc(size_t n) { if (fails()) return nullptr; void *p = malloc(n); add(p, n); fill(p, 0, n); return p; }
void *vt_calloc(size_t a, size_t b) { if (fails()) return nullptr; void *p = calloc(a, b); add(p, a * b); return p; }
void *vt_realloc(void *q, size_t n)
{
	if (fails()) return nullptr;
	size_t old = q ? malloc_usable_size(q) : 0;
	void *p = realloc(q, n);
	fill(p, old, n);
	if (p || !n) { del(q); add(p, n); }
	return p;
}
void *vt_reallocarray(void *q, size_t a, size_t b)
{
	if (fails()) return nullptr;
	size_t old = q ? malloc_usable_size(q) : 0;
	void *p = reallocarray(q, a, b);
	fill(p, old, a * b);
	if (p) { del(q); add(p, a * b); }
	return p;
}
char *vt_strdup(const char *s) { if (fails()) return nullptr; char *p = strdup(s); add(p, strlen(s) + 1); return p; }
char *vt_strndup(const char *s, size_t n) { if (fails()) return nullptr; char *p = strndup(s, n); if (p) add(p, strlen(p) + 1); return p; }
int vt_vasprintf(char **o, const char *f, va_list ap) { if (fails()) return -1; int r = vasprintf(o, f, ap); if (r >= 0) add(*o, r + 1); return r; }
int vt_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vt_vasprintf(o, f, ap); va_end(ap); return r; }
void vt_free(void *p) { del(p); free(p); }
}

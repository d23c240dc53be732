/* Workload generation: boundary-biased random operations, per property. */
#pragma once
#include "ops.hpp"
#include <deque>

struct Rng {
	uint64_t x;
	explicit Rng(uint64_t seed) : x(seed) {}
	uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a + 1))); }
	bool p(double q) { return double(next() >> 11) / 9007199254740992.0 < q; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	/* weighted choice: returns index */
	int w(std::initializer_list<int> ws) { int t = 0; for (int i : ws) t += i; int64_t r = below(t); int k = 0; for (int i : ws) { if (r < i) return k; r -= i; k++; } return 0; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull + b); r.next(); return r.next(); }
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { auto b = (const unsigned char *)p; while (n--) { h ^= *b++; h *= 1099511628211ull; } return h; }
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

/* numbers that appear in the sources of the tree under test (environment TSM_DICT) */
const std::vector<int64_t> &dict();
/* a number of the dictionary (or a neighbour of one) within the limits */
inline int64_t lit_of(Rng &r, int64_t lo, int64_t hi)
{
	for (int i = 0; i < 20 && !dict().empty(); i++) {
		int64_t v = r.pick(dict());
		if (r.p(0.3)) v += r.range(-1, 1);
		if (v >= lo && v <= hi) return v;
	}
	return r.range(lo, std::min(hi, lo + 300));
}

struct Gen {
	Rng r;
	const model::Screen *s = nullptr;	/* state of the model, for targeting boundaries */
	bool vte = true;
	bool wide_ok = true;		/* wide characters allowed */
	std::deque<Op> pend;
	bool sel_ok = false;	/* selections in the mix */
	unsigned serial = 0;
	explicit Gen(uint64_t seed) : r(seed) {}

	/* --- numbers --- */
	int64_t num(int64_t ref)
	{
		switch (r.w({ 30, 12, 25, 10, 6, 4, 4, 4, 2, 3, 3 })) {
		case 10: return lit(0, 70000);
		case 0: return r.range(1, 3);
		case 1: return 1;
		case 2: return r.range(1, ref > 1 ? ref : 1);
		case 3: return ref + r.range(-1, 2);
		case 4: return 0;
		case 5: return r.range(1, 300);
		case 6: return r.pick(std::vector<int64_t>{ 127, 128, 129, 130, 255, 256, 257 });
		case 7: return r.pick(std::vector<int64_t>{ 9999, 16384, 32767, 65534, 65535, 65536, 65537 });
		case 8: return r.p(0.7) ? r.range(1, 700000) : r.pick(std::vector<int64_t>{ 0x7fffffff, 0x80000000ll, 0x80000001ll, 0xfffffffell, 0xffffffffll });
		default: return r.range(1, 20);
		}
	}
	int64_t lit(int64_t lo, int64_t hi) { return lit_of(r, lo, hi); }
	int64_t pos1(int64_t n) { return r.p(0.1) ? num(n) : r.p(0.25) ? (r.p(0.5) ? 1 : n) : r.range(1, n); }
	static std::string S(int64_t n) { return std::to_string(n); }
	std::string P(int64_t n)	/* a parameter that means n (0 and nothing mean the default) */
	{
		if (n < 0) return "";
		if (n == 1 && r.p(0.3)) return "";
		if (r.p(0.04)) return "00" + S(n);
		return S(n);
	}
	std::string csi(const std::string &body) { return "\x1b[" + body; }
	Op C(const std::string &body) { return IN(csi(body)); }

	/* --- text --- */
	uint32_t narrow()
	{
		switch (r.w({ 60, 8, 6, 4, 4 })) {
		case 0: return r.range(0x21, 0x7e);
		case 1: return ' ';
		case 2: return r.pick(std::vector<uint32_t>{ 0xe9, 0xfc, 0xdf, 0xb5, 0xa1, 0xfe });
		case 3: return r.range(0x3b1, 0x3c9);
		default: return r.pick(std::vector<uint32_t>{ 0x2500, 0x2588, 0x416, 0x5d0, 0x10330 });
		}
	}
	uint32_t wide() { return r.pick(std::vector<uint32_t>{ 0x4e00, 0x4e2d, 0x3042, 0xac00, 0xff21, 0x1f600, 0x20000 }); }
	uint32_t zero() { return r.pick(std::vector<uint32_t>{ 0x300, 0x301, 0x200b, 0x200d, 0xfe0f, 0x20d7 }); }
	uint32_t litchr() { uint32_t c = lit(0xa1, 0x10ffff); return c == 0xad || (c >= 0xd800 && c < 0xe000) ? 0xe4 : c; }
	uint32_t chr() { if (wide_ok && r.p(0.01)) return litchr(); int k = r.w({ 80, wide_ok ? 14 : 0, 3 }); return k == 0 ? narrow() : k == 1 ? wide() : zero(); }
	std::string text(int n)
	{
		std::string t;
		if (n > 2 && r.p(0.06)) {	/* all of a kind: as many bytes as the cells can hold */
			uint32_t c = r.pick(std::vector<uint32_t>{ 0x10330, 0x1d400, 0x20ac, 0xe9, 'm', wide_ok ? 0x20000u : 0x10330u, wide_ok ? 0x1f600u : ' ' });
			while (n-- > 0) t += model::utf8(c);
			return t;
		}
 while (n-- > 0) t += model::utf8(chr()); return t; }
	std::string ascii(int n) { std::string t; while (n-- > 0) t += char(r.range(0x21, 0x7e)); return t; }
	Op write(uint32_t ch, const model::Attr &a)
	{
		int f = a.bold | a.italic << 1 | a.underline << 2 | a.inverse << 3 | a.protect << 4 | a.blink << 5;
		return Op(O_WRITE, { ch, a.fc, a.bc, a.fr, a.fg, a.fb, a.br, a.bg, a.bb, f });
	}
	model::Attr rattr(bool prot = false)
	{
		model::Attr a;
		if (r.p(0.5)) return a.protect = prot && r.p(0.4), a;
		a.fc = r.range(-1, 17); a.bc = r.range(-1, 17);
		a.fr = r.below(256); a.fg = r.below(256); a.fb = r.below(256); a.br = r.below(256); a.bg = r.below(256); a.bb = r.below(256);
		a.bold = r.p(0.3); a.italic = r.p(0.2); a.underline = r.p(0.3); a.inverse = r.p(0.2); a.blink = r.p(0.2);
		a.protect = prot && r.p(0.4);
		return a;
	}
	/* print n characters */
	Op print(int n)
	{
		if (vte) return IN(text(n));
		model::Attr a = rattr();
		for (int i = 1; i < n; i++) pend.push_back(write(chr(), a));
		return write(chr(), a);
	}
	/* --- either form of the same operation --- */
	Op cup(int64_t x, int64_t y)	/* 0-based */
	{
		if (!vte) return Op(O_MOVETO, { x, y });
		if (x == 0 && y == 0 && r.p(0.5)) return C("H");
		return C(P(y + 1) + ";" + P(x + 1) + (r.p(0.8) ? "H" : "f"));
	}
	Op cup_any() { return cup(pos1(s->w) - 1, pos1(s->h) - 1); }
	Op margins()
	{
		int64_t t, b;
		if (r.p(0.75) && s->h > 1) { t = r.range(1, s->h - 1); b = r.range(t + 1, s->h); }
		else { t = r.p(0.3) ? 0 : num(s->h); b = r.p(0.3) ? 0 : num(s->h); }
		if (!vte) return Op(O_MARGINS, { t, b });
		if (t == 0 && b == 0 && r.p(0.7)) return C("r");
		return C((t ? S(t) : "") + ";" + (b ? S(b) : "") + "r");
	}
	Op flag(unsigned f, bool on)
	{
		if (!vte) return Op(on ? O_SETF : O_CLRF, { f });
		switch (f) {
		case model::F_INSERT: return C(on ? "4h" : "4l");
		case model::F_WRAP: return C(on ? "?7h" : "?7l");
		case model::F_ORIGIN: return C(on ? "?6h" : "?6l");
		case model::F_INVERSE: return C(on ? "?5h" : "?5l");
		case model::F_HIDE: return C(on ? "?25l" : "?25h");
		case model::F_ALT: return C(on ? "?47h" : "?47l");
		}
		return Op(on ? O_SETF : O_CLRF, { f });
	}
	Op linefeed() { if (!vte) return Op(O_DOWN, { 1, 1 }); return IN(r.pick(std::vector<std::string>{ "\n", "\x0b", "\x0c", "\x1b" "D", "\xc2\x84" })); }
	Op revindex() { if (!vte) return Op(O_UP, { r.range(1, 2), 1 }); return IN(r.p(0.7) ? "\x1bM" : "\xc2\x8d"); }
	Op newline() { if (!vte) return Op(O_NEWLINE); return IN(r.pick(std::vector<std::string>{ "\r\n", "\x1b" "E", "\xc2\x85" })); }
	Op N(int64_t n, const char *fin, int k) { if (!vte) return Op(k, { n }); return C(P(n) + fin); }
	Op SU() { int64_t n = num(s->mb - s->mt + 1); return N(n, "S", O_SCRUP); }
	Op SD() { int64_t n = num(s->mb - s->mt + 1); return N(n, "T", O_SCRDN); }

	std::vector<unsigned> dims(bool vert)
	{
		if (vert) return { 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 8, 8, 12, 24, 24, 50 };
		return { 1, 2, 2, 3, 4, 5, 7, 8, 9, 10, 10, 16, 17, 20, 33, 40, 80 };
	}
	Op resize()
	{
		unsigned w = s->w, h = s->h;
		switch (r.w({ 3, 3, 3, 2, 1 })) {
		case 0: w = r.pick(dims(false)); break;
		case 1: h = r.pick(dims(true)); break;
		case 2: w = r.pick(dims(false)); h = r.pick(dims(true)); break;
		case 3: w = std::max<int64_t>(1, int64_t(w) + r.range(-2, 2)); h = std::max<int64_t>(1, int64_t(h) + r.range(-2, 2)); break;
		default: if (r.p(0.06)) { w = r.p(0.5) ? r.range(120, 600) : lit(120, 1100); h = r.range(1, 3); } else if (r.p(0.15)) { w = r.range(1, 140); h = r.range(1, 300); } else if (r.p(0.15)) { if (r.p(0.5)) w = lit(1, 140); else h = lit(1, 300); } break;
		}
		return Op(O_RESIZE, { w, h });
	}
	/* initial size: small most of the time */
	Op init_size(bool tall = false)
	{
		if (r.p(0.02)) return Op(O_RESIZE, { r.p(0.5) ? lit(1, 140) : r.pick(dims(false)), r.p(0.5) ? lit(1, 140) : r.pick(dims(true)) });
		if (tall && r.p(0.06)) return Op(O_RESIZE, { r.range(1, 4), r.range(129, 300) });
		if (r.p(0.012)) return Op(O_RESIZE, { r.p(0.7) ? r.range(120, 600) : lit(120, 1100), r.range(1, 3) });
		return Op(O_RESIZE, { r.pick(dims(false)), r.pick(dims(true)) });
	}
	/* fill the screen with distinguishable characters */
	void fill(bool attrs = false, bool prot = false, bool gaps = true)
	{
		static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
		unsigned k = r.below(62);
		if (s->w * s->h > 4000) return;
		for (unsigned y = 0; y < s->h; y++) {
			if (vte && !prot) {
				std::string t = csi(S(y + 1) + ";1H");
				if (attrs && r.p(0.5)) t += csi(S(r.range(30, 37)) + ";" + S(r.range(40, 47)) + "m");
				unsigned n = gaps && r.p(0.2) ? r.below(s->w + 1) : s->w;
				for (unsigned x = 0; x < n; x++) t += al[k++ % 62];
				pend.push_back(IN(t));
			} else {
				pend.push_back(Op(O_MOVETO, { 0, y }));
				unsigned n = gaps && r.p(0.2) ? r.below(s->w + 1) : s->w;
				for (unsigned x = 0; x < n; x++) pend.push_back(write(al[k++ % 62], attrs || prot ? rattr(prot) : model::Attr()));
			}
		}
	}
	Op pop() { Op o = pend.front(); pend.pop_front(); return o; }
	std::string sgr();
	std::string sgr_part();
};

struct Case;
struct Profile {
	const char *id;
	unsigned mask;
	int vte;		/* 0: screen API only, 1: both (random), 2: terminal only */
	int min_ops, max_ops;
	void (*setup)(Gen &);
	Op (*next)(Gen &);
};
enum { M_CUR = 1, M_CELL = 2, M_ATTR = 4, M_SB = 8, M_SFL = 16, M_VFL = 32, M_OUT = 64, M_OSC = 128, M_MCB = 256, M_MGET = 512,
       M_SEL = 1024, M_RET = 2048, M_SIZE = 4096, M_DEFA = 8192, M_CB = 16384 /* last mouse callback == effective tracking */ };
const Profile *find_profile(const std::string &id);
Op gen_any(Gen &g);
Op next_mix(Gen &g);
void setup_any(Gen &g);
std::vector<Op> no_callbacks(Gen &g);
std::string any_bytes(Gen &g);
Op pal_op(Gen &g);

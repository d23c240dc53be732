#include "gen.hpp"
#include <fstream>
using namespace model;
typedef std::vector<std::string> VS;
typedef std::vector<int64_t> VI;

const std::vector<int64_t> &dict()
{
	static std::vector<int64_t> d;
	static bool loaded;
	if (!loaded) {
		loaded = true;
		const char *f = getenv("TSM_DICT");
		std::ifstream is(f ? f : "/dev/null");
		int64_t v;
		while (is >> v) d.push_back(v);
	}
	return d;
}

std::string Gen::sgr_part()
{
	if (r.p(0.02)) return S(lit(0, 70000));
	switch (r.w({ 8, 14, 8, 14, 8, 8, 14, 14, 4, 4, 3 })) {
	case 0: return r.p(0.5) ? "0" : "";
	case 1: return S(r.pick(VI{ 1, 3, 4, 5, 7 }));
	case 2: return S(r.pick(VI{ 22, 23, 24, 25, 27 }));
	case 3: return S(r.p(0.5) ? r.range(30, 37) : r.range(40, 47));
	case 4: return S(r.p(0.5) ? r.range(90, 97) : r.range(100, 107));
	case 5: return r.p(0.5) ? "39" : "49";
	case 6: return (r.p(0.5) ? "38;5;" : "48;5;") + S(r.p(0.2) ? r.pick(VI{ 0, 7, 8, 15, 16, 17, 21, 51, 231, 232, 233, 255 }) : r.range(0, 255));
	case 7: return (r.p(0.5) ? "38;2;" : "48;2;") + S(r.below(256)) + ";" + S(r.below(256)) + ";" + S(r.below(256));
	case 8: return (r.p(0.5) ? "38" : "48") + std::string(r.pick(VS{ "", ";5", ";2", ";2;1", ";2;1;2", ";5;", ";2;;3;4", ";7;1", ";;1", ";2;9;9;" }));
	case 9: return S(r.pick(VI{ 2, 6, 8, 9, 10, 21, 26, 28, 29, 50, 51, 89, 98, 99, 108, 1000, 70000 }));
	default: return S(r.below(120));
	}
}
std::string Gen::sgr()
{
	std::string t = sgr_part();
	int n = r.w({ 6, 3, 2, 1, 1 });
	if (r.p(0.03)) n = r.range(12, 20);
	while (n--) t += ";" + sgr_part();
	return csi(t + "m");
}

static void setup_min(Gen &g) { g.pend.push_back(g.init_size()); }
static void setup_tall(Gen &g) { g.pend.push_back(g.init_size(true)); }
/* contents are produced lazily, once the size is known */
static Op first_fill(Gen &g, bool attrs, bool prot) { g.fill(attrs, prot); if (g.pend.empty()) return Op(O_GETTERS); return g.pop(); }

/* ---- C06: UTF-8 ---- */
static std::string bad_utf8(Gen &g)
{
	auto &r = g.r;
	auto cont = [&] { return char(r.range(0x80, 0xbf)); };
	switch (r.w({ 6, 6, 4, 4, 4, 4, 3, 3, 3 })) {
	case 0: return std::string(1, char(r.range(0xa0, 0xff)));
	case 1: { std::string t(1, char(r.range(0xc0, 0xff))); int n = r.range(0, 4); while (n--) t += cont(); return t; }
	case 2: { std::string t = "\xe0"; t += char(r.range(0x80, 0x9f)); t += cont(); return t; }
	case 3: { std::string t = "\xed"; t += char(r.range(0xa0, 0xbf)); t += cont(); return t; }
	case 4: { std::string t = "\xf0"; t += char(r.range(0x80, 0x8f)); t += cont(); t += cont(); return t; }
	case 5: { std::string t = "\xf4"; t += char(r.range(0x90, 0xbf)); t += cont(); t += cont(); return t; }
	case 6: { std::string t(1, char(r.range(0xf5, 0xf7))); t += cont(); t += cont(); t += cont(); return t; }
	case 7: { std::string t; int n = r.range(1, 5); while (n--) t += cont(); return t; }
	default: { std::string t = utf8(r.pick(std::vector<uint32_t>{ 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff - 2, 0x10000, 0x10fffd })); if (r.p(0.5)) t.resize(t.size() - 1); return t; }
	}
}
static uint32_t any_cp(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 4, 4, 4, 4 })) {
	case 0: return r.range(0x20, 0x7e);
	case 1: return r.range(0xa0, 0x7ff);
	case 2: { uint32_t c = r.range(0x800, 0xffff); return c >= 0xd800 && c < 0xe000 ? 0xe000 : c; }
	default: return r.range(0x10000, 0x10ffff);
	}
}
static std::string raw_utf8(uint32_t g)
{
	std::string s;
	if (g < 0x80) s += char(g);
	else if (g < 0x800) { s += char(0xc0 | g >> 6); s += char(0x80 | (g & 63)); }
	else if (g < 0x10000) { s += char(0xe0 | g >> 12); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	else { s += char(0xf0 | g >> 18); s += char(0x80 | (g >> 12 & 63)); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	return s;
}
static bool has_c1(const std::string &t) { for (size_t i = 0; i + 1 < t.size(); i++) if ((unsigned char)t[i] == 0xc2 && (unsigned char)t[i + 1] >= 0x80 && (unsigned char)t[i + 1] < 0xa0) return true; return false; }
static void setup_c06(Gen &g) { g.pend.push_back(Op(O_RESIZE, { g.r.range(8, 90), g.r.range(3, 12) })); }
static Op next_c06(Gen &g)
{
	auto &r = g.r;
	if (r.p(0.12)) return g.cup(0, r.below(g.s->h));
	std::string t;
	int n = r.range(1, 6);
	while (n--) t += r.p(0.45) ? bad_utf8(g) : raw_utf8(any_cp(g));
	if (r.p(0.1)) { t.clear(); n = r.range(1, 12); while (n--) t += char(r.p(0.8) ? r.range(0x80, 0xff) : r.range(0x20, 0x7e)); }
	if (has_c1(t)) t = "x";
	/* a trailing lead byte 0xc2 could combine into a C1 control with the next operation */
	if (!t.empty() && (unsigned char)t.back() == 0xc2) t += ' ';
	return IN(t);
}

/* ---- C07: parser ---- */
/* near misses: a known control sequence with a marker or an intermediate byte it does not have, or has */
static std::string near_csi(Gen &g)
{
	auto &r = g.r;
	static const std::string finals = "@ABCDEFGHIJKLMPSTXZcdefghlmnpqrstux`a";
	std::string t;
	if (r.p(0.6)) t += "?><=!"[r.below(5)];
	int n = r.w({ 4, 8, 3 });
	for (int i = 0; i < n; i++) { if (i) t += ';'; t += g.S(r.p(0.8) ? r.below(5) : g.num(20)); }
	if (r.p(0.25)) t += " !\"#$%&'()*+,-./"[r.below(16)];
	return g.csi(t + finals[r.below(finals.size())]);
}
static std::string junk_csi(Gen &g)
{
	auto &r = g.r;
	static const std::string finals = "@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
	static const std::string unsup = "NOQRUVWY[\\]^_`abijkoqstuvwxyz{|}~";
	std::string t;
	auto param = [&] { std::string p; int n = r.w({ 3, 5, 3, 1 }); for (int i = 0; i < n; i++) { if (i) p += ';'; if (r.p(0.8)) p += g.S(r.p(0.9) ? r.range(0, 40) : r.range(0, 3000000000ll)); } return p; };
	switch (r.w({ 6, 6, 4, 4, 3, 3, 3 })) {
	case 0: return g.csi(param() + std::string(1, unsup[r.below(unsup.size())]));			/* unsupported final */
	case 1: return g.csi(std::string(1, "?><="[r.below(4)]) + param() + finals[r.below(finals.size())]);	/* private marker */
	case 2: { std::string t2 = param(); int n = r.range(1, 3); while (n--) t2 += char(r.range(0x20, 0x2f)); return g.csi(t2 + finals[r.below(finals.size())]); }
	case 3: return g.csi(param() + ":" + param() + finals[r.below(finals.size())]);
	case 4: { std::string t2 = param() + std::string(1, "?><="[r.below(4)]) + param(); return g.csi(t2 + finals[r.below(finals.size())]); }
	case 5: { std::string t2; int n = r.range(10, 40); while (n--) t2 += g.S(r.below(30)) + ";"; return g.csi(t2 + finals[r.below(finals.size())]); }
	default: { std::string t2 = param(); t2 += raw_utf8(r.range(0xa0, 0x2fff)); return g.csi(t2 + "5" + finals[r.below(finals.size())]); }
	}
}
static std::string str_seq(Gen &g)
{
	auto &r = g.r;
	std::string t = r.pick(VS{ "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\xc2\x90", "\xc2\x98", "\xc2\x9e", "\xc2\x9f" });
	/* the head of a device control string: that of a control sequence, also overlong or malformed */
	if (r.p(0.5)) { auto j = junk_csi(g); t += j.substr(j[0] == '\x1b' ? 2 : (unsigned char)j[0] == 0xc2 ? 2 : 0); }
	int n = r.p(0.1) ? r.range(30, 300) : r.range(0, 30);
	while (n--) {
		switch (r.w({ 8, 2, 2, 1 })) {
		case 0: t += char(r.range(0x20, 0x7e)); break;
		case 1: { int c = r.range(0, 0x1f); if (c == 0x18 || c == 0x1a || c == 0x1b) c = 7; t += char(c); break; }
		case 2: t += raw_utf8(r.range(0xa0, 0x1ffff) | 0); break;
		default: t += char(0x7f); break;
		}
	}
	t += r.pick(VS{ "\x1b\\", "\xc2\x9c", "\x18", "\x1b\\", "\x1b[m", "\xc2\x85", "\x1a" });
	return t;
}
static Op next_c07(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 12, 6, 5, 5, 4, 6, 4, 3, 4, 2, 8 })) {
	case 10: return IN(near_csi(g));
	case 0: return IN(junk_csi(g));
	case 1: return IN(str_seq(g));
	case 2: { std::string t = "\x1b"; int n = r.range(0, 2); while (n--) t += char(r.range(0x20, 0x2f)); t += char(r.range(0x30, 0x7e));
		if (t.size() == 2 && strchr("PX^_]cZ", t[1])) t = "\x1b#8"; return IN(t); }
	case 3: { std::string t = junk_csi(g); t.insert(1 + r.below(t.size()), std::string(1, char(r.pick(VI{ 0x18, 0x1a, 0x07, 0x08, 0x0d, 0x7f, 0x00, 0x1b, 0x0a, 0x11 })))); return IN(t); }
	case 4: { std::string t = g.csi(g.P(r.range(1, 5))); return IN(t + r.pick(VS{ "\x18", "\x1a", "\x1b", "\x1b[", "\xc2\x9b", "\xc2\x84", "\n", "\x1b]" })); }
	case 5: return IN(g.text(r.range(1, 6)));
	case 6: return g.cup_any();
	case 7: return IN(g.sgr());
	case 8: { std::string t; int n = r.range(1, 10); while (n--) t += char(r.p(0.3) ? r.range(0, 0x1f) : r.range(0x20, 0x7f)); return IN(t); }
	default: return IN("\x1b]" + (r.p(0.3) ? str_seq(g).substr(2) : g.ascii(r.range(0, 5))) + r.pick(VS{ "\x07", "\x1b\\", "\xc2\x9c", "\x18", "\x1a" }));
	}
}

/* ---- C08: printing ---- */
static Op next_c08(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	switch (r.w({ 50, 6, 6, 12, 5, 5, 4, 3, 2, 3 })) {
	case 0: return g.print(r.p(0.3) ? r.range(1, 2) : r.range(1, std::min(80u, s.w * 2 + 2)));
	case 1: return g.vte ? IN("\r") : Op(O_HOME);
	case 2: return g.linefeed();
	case 3: { int64_t x = std::max<int64_t>(0, int64_t(s.w) - r.range(1, 4)); return g.cup(r.p(0.6) ? x : r.below(s.w), r.p(0.4) ? s.h - 1 : r.below(s.h)); }
	case 4: return g.flag(F_WRAP, r.p(0.6));
	case 5: return g.flag(F_INSERT, r.p(0.5));
	case 6: return g.margins();
	case 7: return g.vte ? IN(g.sgr()) : g.print(2);
	case 8: return g.resize();
	default: return g.vte ? IN("\b") : Op(O_LEFT, { 1 });
	}
}

/* ---- C09: cursor motion ---- */
static Op next_c09(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	int64_t nx = g.num(s.w), ny = g.num(s.h);
	switch (r.w({ 8, 8, 8, 8, 14, 5, 4, 4, 5, 5, 4, 4, 4, 5, 6, 5, 4, 3, 3, 2 })) {
	case 0: return g.vte ? g.C(g.P(ny) + "A") : Op(O_UP, { ny, 0 });
	case 1: return g.vte ? g.C(g.P(ny) + "B") : Op(O_DOWN, { ny, 0 });
	case 2: return g.N(nx, "C", O_RIGHT);
	case 3: return g.N(nx, "D", O_LEFT);
	case 4: return g.cup(g.pos1(s.w) - 1, g.pos1(s.h) - 1);
	case 5: return g.vte ? g.C(g.P(g.pos1(s.w)) + "G") : Op(O_LEND);
	case 6: return g.vte ? g.C(g.P(g.pos1(s.h)) + "d") : Op(O_HOME);
	case 7: return g.vte ? g.C(g.P(ny) + "e") : Op(O_LEND);
	case 8: return g.vte ? g.C(g.P(ny) + "E") : Op(O_NEWLINE);
	case 9: return g.vte ? g.C(g.P(ny) + "F") : Op(O_DOWN, { ny, 1 });
	case 10: return g.vte ? IN("\r") : Op(O_HOME);
	case 11: return g.linefeed();
	case 12: return g.revindex();
	case 13: return g.vte ? IN("\b") : Op(O_LEFT, { 1 });
	case 14: return g.margins();
	case 15: return g.flag(F_ORIGIN, r.p(0.5));
	case 16: { g.wide_ok = false; return g.vte ? IN(g.ascii(r.p(0.5) ? s.w : r.range(1, 4))) : g.print(r.p(0.5) ? s.w : 2); }
	case 17: return g.newline();
	case 18: return g.flag(F_HIDE, r.p(0.5));
	default: return g.resize();
	}
}

/* ---- C10: scroll regions ---- */
static Op next_c10(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	switch (r.w({ 14, 14, 10, 10, 10, 14, 8, 6, 3, 4, 3, 2, 4, 3 })) {
	case 0: return g.margins();
	case 1: return g.linefeed();
	case 2: return g.revindex();
	case 3: return g.SU();
	case 4: return g.SD();
	case 5: return g.cup(r.below(s.w), r.p(0.5) ? (r.p(0.5) ? s.mb : s.mt) : r.below(s.h));
	case 6: { g.wide_ok = false; return g.print(r.range(1, 5)); }
	case 7: return g.newline();
	case 8: return g.flag(F_ORIGIN, r.p(0.5));
	case 9: return first_fill(g, false, false);
	case 10: return g.flag(F_ALT, r.p(0.5));
	case 11: return Op(O_MAXSB, { r.pick(VI{ 0, 1, 3, 10, 200 }) });
	case 12: if (!g.vte) return Op(r.p(0.5) ? O_DOWN : O_UP, { g.num(s.h), 1 }); return g.cup(s.w - 1, r.p(0.7) ? s.mb : r.below(s.h));
	default: return r.p(0.5) ? Op(O_SBUP, { g.num(3) }) : Op(O_SBRESET);
	}
}

/* ---- C11: erase ---- */
static Op next_c11(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	std::string q = r.p(0.4) ? "?" : "";
	switch (r.w({ 16, 16, 12, 24, 6, 6, 6, 4, 2 })) {
	case 0: if (!g.vte) return Op(r.pick(std::vector<int>{ O_ERABOVE, O_ERBELOW, O_ERALL }), { r.p(0.5) }); return g.C(q + r.pick(VS{ "J", "0J", "1J", "2J", "2J", "3J", "4J" }));
	case 1: if (!g.vte) return Op(r.pick(std::vector<int>{ O_EREOL, O_ERBOL, O_ERLINE }), { r.p(0.5) }); return g.C(q + r.pick(VS{ "K", "0K", "1K", "2K", "3K" }));
	case 2: if (!g.vte && r.p(0.2)) return Op(O_ERCUR); return g.N(g.num(s.w), "X", O_ERCH);
	case 3: return g.cup(r.below(s.w), r.below(s.h));
	case 4: g.fill(true, true, true); return g.pend.empty() ? Op(O_GETTERS) : g.pop();
	case 5: if (g.vte) return IN(g.csi((r.p(0.5) ? "4" : "10") + g.S(r.range(0, 7)) + (r.p(0.5) ? ";1m" : "m"))); { model::Attr a = g.rattr(r.p(0.3)); Op w = g.write('x', a); w.a.erase(w.a.begin()); return Op(O_DEFATTR, w.a); }
	case 6: g.wide_ok = r.p(0.2); return g.print(s.cx < s.w ? s.w - s.cx : 1);
	case 7: { model::Attr a = g.rattr(true); if (r.p(0.5)) a.protect = true; return g.write(r.p(0.25) ? g.wide() : 'P', a); }
	default: return g.margins();
	}
}

/* ---- C12: insert / delete ---- */
static Op next_c12(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	switch (r.w({ 12, 12, 14, 14, 24, 6, 5, 5, 3, 3 })) {
	case 0: return g.N(g.num(s.h), "L", O_INSL);
	case 1: return g.N(g.num(s.h), "M", O_DELL);
	case 2: return g.N(g.num(s.w), "@", O_INSC);
	case 3: return g.N(g.num(s.w), "P", O_DELC);
	case 4: return g.cup(r.below(s.w), r.p(0.3) ? (r.p(0.5) ? s.mt : s.mb) : r.below(s.h));
	case 5: return first_fill(g, true, false);
	case 6: return g.margins();
	case 7: if (g.vte) return IN(g.csi("4" + g.S(r.range(0, 7)) + "m")); { model::Attr a = g.rattr(); Op w = g.write('x', a); w.a.erase(w.a.begin()); return Op(O_DEFATTR, w.a); }
	case 8: g.wide_ok = false; return g.print(s.cx < s.w ? s.w - s.cx : 1);
	default: return g.flag(F_ALT, r.p(0.5));
	}
}

/* ---- C13: tabs ---- */
static void setup_c13(Gen &g)
{
	g.pend.push_back(Op(O_RESIZE, { g.r.pick(VI{ 1, 2, 7, 8, 9, 10, 16, 17, 24, 25, 40, 80, 81, 132 }), g.r.range(1, 4) }));
}
static Op next_c13(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	switch (r.w({ 16, 12, 12, 10, 6, 3, 16, 6, 5, 2 })) {
	case 0: return g.vte ? IN("\t") : Op(O_TABR, { 1 });
	case 1: return g.N(g.num(4), "I", O_TABR);
	case 2: return g.N(g.num(4), "Z", O_TABL);
	case 3: return g.vte ? IN(r.p(0.7) ? "\x1bH" : "\xc2\x88") : Op(O_TABSET);
	case 4: return g.vte ? g.C(r.p(0.5) ? "g" : "0g") : Op(O_TABCLR);
	case 5: return g.vte ? g.C(r.pick(VS{ "3g", "3g", "1g", "2g" })) : Op(O_TABCLRALL);
	case 6: return g.cup(r.below(s.w), r.below(s.h));
	case 7: { Op o = g.resize(); o.a[1] = s.h; if (r.p(0.3)) o.a[0] = r.range(1, 140); return o; }
	case 8: g.wide_ok = false; return g.print(r.p(0.4) && s.cx < s.w ? s.w - s.cx : r.range(1, 3));
	default: return g.vte ? (r.p(0.5) ? Op(O_VRESET) : IN("\x1b[!p")) : Op(O_SRESET);
	}
}

/* ---- C14: scroll-back conservation ---- */
static void setup_c14(Gen &g) { g.pend.push_back(g.init_size(true)); g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 1, 2, 3, 5, 10, 20, 50, 500 }) })); }
static void walk(Gen &g)
{
	g.pend.push_back(Op(O_SBUP, { 100000 }));
	unsigned n = g.s->sb.size() / g.s->h + 2;
	for (unsigned i = 0; i < n && i < 40; i++) g.pend.push_back(Op(O_SBDOWN, { g.s->h }));
	g.pend.push_back(Op(O_SBRESET));
}
static Op next_c14(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = r.p(0.1);
	switch (r.w({ 30, 8, 6, 5, 4, 4, 1, 5, 4, 3, 5, 3 })) {
	case 0: { if (!g.vte) { g.pend.push_back(Op(O_NEWLINE)); return g.print(r.range(1, std::min(6u, s.w))); } std::string t = g.S(g.serial++ % 1000) + g.ascii(r.below(4)); return IN(t.substr(0, s.w) + "\r\n"); }
	case 1: g.wide_ok = false; return g.print(r.range(1, std::min(200u, 3 * s.w)));
	case 2: return g.SU();
	case 3: return g.resize();
	case 4: return g.margins();
	case 5: return Op(O_MAXSB, { r.pick(VI{ 0, 1, 2, 3, 5, 10, 100, 500 }) });
	case 6: return Op(O_CLEARSB);
	case 7: walk(g); return g.pop();
	case 8: return g.flag(F_ALT, r.p(0.4));
	case 9: return g.SD();
	case 10: return g.cup(0, r.p(0.6) ? s.h - 1 : r.below(s.h));
	default: return g.vte ? IN(g.sgr()) : g.linefeed();
	}
}

/* ---- C15: view position ---- */
static void setup_c15(Gen &g) { g.pend.push_back(g.init_size()); g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 0, 1, 2, 3, 5, 8, 20, 100 }) })); }
/* sometimes so large that products with the screen's size overflow */
static int64_t huge(Gen &g, int64_t ref)
{
	auto &r = g.r;
	if (!r.p(0.06)) return g.num(ref);
	switch (r.w({ 3, 2, 2, 2 })) {
	case 0: return std::min<int64_t>(0xffffffff, 0x100000000ll / std::max(1u, g.s->h) + r.range(-1, 3));
	case 1: return 0xffffffff - (int64_t)r.below(4);
	case 2: return 0x80000000ll + r.range(-2, 2);
	default: return r.below(0x100000000ull);
	}
}
static Op next_c15(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = false;
	switch (r.w({ 24, 12, 10, 5, 5, 4, 6, 3, 1, 3, 2, 2 })) {
	case 0: { std::string t = g.ascii(std::min(3u, s.w)); if (!g.vte) { g.pend.push_back(Op(O_NEWLINE)); return g.print(1); } return IN(t + "\r\n"); }
	case 1: return Op(O_SBUP, { huge(g, s.sb.size()) });
	case 2: return Op(O_SBDOWN, { huge(g, s.sb.size()) });
	case 3: return Op(O_SBPGUP, { r.p(0.8) ? r.range(0, 3) : huge(g, s.h) });
	case 4: return Op(O_SBPGDN, { r.p(0.8) ? r.range(0, 3) : huge(g, s.h) });
	case 5: return Op(O_SBRESET);
	case 6: return Op(r.p(0.6) ? O_SETF : O_CLRF, { F_FIXED });
	case 7: return Op(O_MAXSB, { r.pick(VI{ 0, 1, 2, 3, 5, 8, 20, 100 }) });
	case 8: return Op(O_CLEARSB);
	case 9: return g.SU();
	case 10: return g.cup_any();
	default: return g.resize();
	}
}

/* ---- C16: alternate screen ---- */
static Op alt_switch(Gen &g)
{
	auto &r = g.r;
	if (!g.vte) return Op(r.p(0.5) ? O_SETF : O_CLRF, { F_ALT });
	return g.C(std::string("?") + r.pick(VS{ "47", "1047", "1049", "1049", "1048", "1047;1048" }) + (r.p(0.5) ? "h" : "l"));
}
static void setup_c16(Gen &g) { g.pend.push_back(g.init_size()); g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 0, 2, 10 }) })); }
static Op next_c16(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = false;
	switch (r.w({ 18, 14, 12, 6, 6, 5, 4, 4, 4, 3, 3, 3, 3, 2 })) {
	case 0: return alt_switch(g);
	case 1: return g.print(r.range(1, std::min(40u, s.w + 2)));
	case 2: return g.cup_any();
	case 3: return g.newline();
	case 4: return g.SU();
	case 5: return g.SD();
	case 6: return g.N(g.num(s.h), "L", O_INSL);
	case 7: return g.N(g.num(s.h), "M", O_DELL);
	case 8: return g.vte ? g.C(r.pick(VS{ "J", "1J", "2J", "K" })) : Op(O_ERALL, { 0 });
	case 9: return g.margins();
	case 10: return r.p(0.5) ? Op(O_SBUP, { g.num(3) }) : Op(O_SBRESET);
	case 11: return g.resize();
	case 12: return g.vte ? IN(g.csi("4" + g.S(r.range(0, 7)) + "m")) : g.linefeed();
	default: return g.vte ? IN("\x1b[!p") : Op(O_SRESET);
	}
}

/* ---- C17: attributes ---- */
Op pal_op(Gen &g)
{
	auto &r = g.r;
	if (r.p(0.3)) {
		Op o(O_CPAL);
		if (r.p(0.25)) { o.has_s = false; return o; }
		for (int i = 0; i < 54; i++) o.s += char(r.below(256));
		return o;
	}
	Op o(O_PAL);
	if (r.p(0.1)) { o.has_s = false; return o; }
	o.s = r.pick(VS{ "legacy", "vga", "solarized", "solarized-black", "solarized-white", "soft-black", "base16-dark", "base16-light", "custom", "custom", "nonsense", "" });
	return o;
}
static void setup_c17(Gen &g) { g.pend.push_back(Op(O_RESIZE, { g.r.range(2, 24), g.r.range(1, 5) })); }
static Op next_c17(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = false;
	switch (r.w({ 40, 30, 6, 6, 4, 3, 2 })) {
	case 0: return IN(g.sgr());
	case 1: return IN(g.ascii(r.range(1, 3)));
	case 2: return g.cup_any();
	case 3: return g.C(r.pick(VS{ "K", "J", "2K", "X", "3X", "2J" }));
	case 4: return pal_op(g);
	case 5: return g.C(g.P(g.num(s.w)) + (r.p(0.5) ? "@" : "P"));
	default: return r.p(0.5) ? IN("\x1b[!p") : g.flag(F_INVERSE, r.p(0.5));
	}
}

/* ---- C19: selection ---- */
static void setup_c19(Gen &g) { g.serial = g.r.p(0.3);	/* with the alternate screen */
	g.pend.push_back(Op(O_RESIZE, { g.r.range(1, 12), g.r.range(1, 6) })); g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 0, 1, 2, 3, 6, 20 }) }));
	if (g.r.p(0.02)) {	/* a long history */
		long n = g.r.p(0.8) ? 256 * g.r.range(1, 4) + g.r.range(-8, 3) : g.r.p(0.2) ? 65536 + g.r.range(-8, 3) : lit_of(g.r, 100, 5000);
		g.pend.push_back(Op(O_MAXSB, { g.r.p(0.5) ? 100000 : g.r.range(5, 40) }));
		std::string t;
		for (long i = 0; i < n; i++) t += g.vte ? std::to_string(i % 10) + "\r\n" : "";
		if (g.vte) g.pend.push_back(IN(t));
		else for (n = std::min(n, 1100l); n > 0; n--) g.pend.push_back(Op(O_NEWLINE));
	}
}
static Op next_c19(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = r.p(0.3);
	auto X = [&] { return r.p(0.05) ? int64_t(r.below(0x100000000ull)) : r.range(0, s.w); };
	auto Y = [&] { return r.p(0.05) ? int64_t(r.below(0x100000000ull)) : r.range(0, s.h); };
	int alt = !g.serial ? 0 : s.flags & F_ALT ? 6 : 2;
	if (s.flags & F_ALT) switch (r.w({ 14, 16, 2, 16, 16, 6, 6, 3 })) {	/* nothing here scrolls */
	case 0: return Op(O_SELST, { X(), Y() });
	case 1: return Op(O_SELTGT, { X(), Y() });
	case 2: return Op(O_SELRST);
	case 3: return Op(O_SELCOPY);
	case 4: { int n = s.cx < s.w ? r.below(s.w - s.cx) : 0; g.wide_ok = false; if (n < 1) return g.cup_any(); return g.vte ? IN(g.ascii(n)) : g.print(n); }
	case 5: return g.cup_any();
	case 6: g.pend.push_back(g.flag(F_ALT, false)); return Op(O_SELRST);
	default: return Op(O_RESIZE, { r.range(1, 12), s.h });
	}
	switch (r.w({ 14, 16, 2, 16, 16, 8, 6, 3, 2, 1, 2, 2, 3, 3, alt })) {
	case 14: g.pend.push_back(g.flag(F_ALT, true)); return Op(O_SELRST);
	case 13: {	/* everything there is, or whole lines of it */
		if (g.vte && r.p(0.5)) {
			std::string t = g.csi("H"), u = utf8(r.pick(std::vector<uint32_t>{ 0x10330, 0x1d400, 0x20ac, 'm' }));
			for (unsigned i = 0; i < s.w * s.h; i++) t += u;
			if (s.w * s.h < 200) g.pend.push_back(IN(t));
		}
		if (r.p(0.5)) g.pend.push_back(Op(O_SBUP, { r.range(1, 30) }));
		int64_t y = r.below(s.h);
		g.pend.push_back(Op(O_SELST, { 0, r.p(0.5) ? 0 : y }));
		if (r.p(0.5)) g.pend.push_back(Op(O_SBRESET));
		g.pend.push_back(Op(O_SELTGT, { s.w - 1, r.p(0.5) ? s.h - 1 : y }));
		return g.pend.push_back(Op(O_SELCOPY)), g.pop();
	}
	case 0: return Op(O_SELST, { X(), Y() });
	case 1: return Op(O_SELTGT, { X(), Y() });
	case 2: return Op(O_SELRST);
	case 3: return Op(O_SELCOPY);
	case 4: { int n = r.below(s.w + 1); if (g.vte) return IN(g.text(n) + "\r\n"); g.pend.push_back(Op(O_NEWLINE)); return g.print(std::max(1, n)); }
	case 5: return Op(O_SBUP, { r.range(1, 4) });
	case 6: return Op(O_SBDOWN, { r.range(1, 4) });
	case 7: return r.p(0.7) ? Op(O_SBRESET) : Op(r.p(0.5) ? O_SETF : O_CLRF, { F_FIXED });
	case 8: return Op(O_MAXSB, { r.pick(VI{ 0, 1, 2, 3, 6, 20 }) });
	case 9: return Op(O_CLEARSB);
	case 10: return Op(O_RESIZE, { r.range(1, 12), r.range(1, 6) });
	case 11: return r.p(0.6) ? g.SU() : g.SD();
	default: return g.cup_any();
	}
}

/* ---- C20: keyboard ---- */
static int64_t keysym(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 40, 20, 10, 5, 5, 2 })) {
	case 5: return g.lit(0, 0x1010000);
	case 0: return r.range(0xff00, 0xffff);
	case 1: return r.range(0x20, 0x7e);
	case 2: return r.pick(VI{ 0xfe20, 0xfe03, 0xff08, 0xff09, 0xff0d, 0xff8d, 0xff1b, 0xff51, 0xff52, 0xff53, 0xff54, 0xffff });
	case 3: return r.range(0xa0, 0x20ff);
	default: return r.range(0, 0x1010000);
	}
}
static Op key_op(Gen &g)
{
	auto &r = g.r;
	int64_t k = keysym(g), as = r.p(0.5) ? 0 : r.p(0.5) ? k : r.range(0x20, 0x7e);
	int64_t mods = r.p(0.4) ? 0 : r.below(32);
	int64_t u = r.p(0.4) ? 0xffffffffll : r.p(0.6) ? r.range(0x20, 0x7e) : r.p(0.1) ? g.lit(0, 0x110000) : r.pick(VI{ 0, 1, 0x7f, 0x80, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0xd800, 0x4e2d });
	return Op(O_KEY, { k, as, mods, u });
}
static Op next_c20(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 60, 8, 8, 5, 4, 3, 2 })) {
	case 0: return key_op(g);
	case 1: return g.C(r.p(0.5) ? "?1h" : "?1l");
	case 2: return IN(r.p(0.5) ? "\x1b=" : "\x1b>");
	case 3: return g.C(r.p(0.5) ? "20h" : "20l");
	case 4: return Op(O_BSDEL, { r.p(0.5) });
	case 5: return g.C(r.pick(VS{ "61\"p", "62\"p", "64;1\"p", "63;2\"p", "65\"p" }));
	default: return IN("\x1b[!p");
	}
}

/* ---- C21: mouse ---- */
static Op mouse_op(Gen &g)
{
	auto &r = g.r;
	auto c = [&]() -> int64_t { return r.p(0.02) ? g.lit(0, 65536) : r.p(0.6) ? r.range(0, 6) : r.p(0.6) ? r.pick(VI{ 80, 94, 95, 126, 127, 190, 221, 222, 223, 224, 254, 255, 256, 300, 1000, 65535 }) : r.range(0, 300); };
	return Op(O_MOUSE, { c(), c(), c() * 10, c() * 17, r.pick(VI{ 0, 1, 2, 4, 5 }), r.pick(VI{ 1, 1, 2, 2, 4, 4, 4 }), r.p(0.5) ? 0 : r.pick(VI{ 4, 8, 16, 12, 20, 28 }) });
}
static Op next_c21(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 50, 40, 2, 2, 2, 4 })) {
	case 0: return mouse_op(g);
	case 5: {	/* from one cell to another that has something in common with it */
		int64_t x = r.p(0.5) ? r.below(300) : r.below(5), y = r.p(0.5) ? r.below(300) : r.below(5), d = int64_t(1) << r.range(0, 16), u = x, v = y;
		switch (r.below(5)) {
		case 0: u = y; v = x; break;
		case 1: u += d; break;
		case 2: v += d; break;
		case 3: u += d; v += v ? -1 : 1; break;
		default: if (v >= d) v -= d; u++; break;
		}
		if (r.p(0.5)) std::swap(u, x), std::swap(v, y);
		g.pend.push_back(Op(O_MOUSE, { x, y, x * 8, y * 8, 0, 4, 0 }));
		g.pend.push_back(Op(O_MOUSE, { u, v, u * 8, v * 8, 0, 4, 0 }));
		return g.C(r.p(0.8) ? "?1003;1006h" : "?1003;1016h");
	}
	case 4: {	/* far outside, where the X10 encoding stops at its last column and row */
		Op o = mouse_op(g);
		auto far = VI{ 0xffffffff, 0xffffffdf, 0xffffffde, 0xffffff00, 0x80000000, 0x7fffffff };
		o.a[0] = r.pick(far); if (r.p(0.5)) o.a[1] = r.pick(far); else std::swap(o.a[0], o.a[1]);
		g.pend.push_back(o);
		g.pend.push_back(IN("\x1b[?9l"));
		return IN("\x1b[?9h");
	}
	case 1: { std::string t = "?" + r.pick(VS{ "9", "1002", "1003", "1006", "1016", "1002;1006", "1003;1006", "1003;1016", "1000", "1005", "1015" }); return g.C(t + (r.p(0.6) ? "h" : "l")); }
	case 2: return r.p(0.5) ? IN("\x1b[!p") : IN("\x1b" "c");
	default: return IN(g.ascii(1));
	}
}

/* ---- C22: queries ---- */
static Op query(Gen &g)
{
	return IN(g.r.pick(VS{ "\x1b[c", "\x1b[0c", "\x1b[>c", "\x1b[>0c", "\x1b[1c", "\x1b[>1c", "\x1bZ", "\xc2\x9a", "\x05", "\x1b[5n", "\x1b[6n", "\x1b[6n", "\x1b[6n",
		"\x1b[n", "\x1b[7n", "\x1b[0;0c", "\x1b[?c", "\x1b[=c", "\x1b[!c", "\x1b[15n" }));
}
static Op next_c22(Gen &g)
{
	auto &r = g.r; auto &s = *g.s;
	g.wide_ok = r.p(0.3);
	switch (r.w({ 40, 14, 8, 6, 6, 6, 6, 2, 2 })) {
	case 0: return query(g);
	case 1: return g.cup_any();
	case 2: return IN(g.text(r.p(0.4) && s.cx < s.w ? s.w - s.cx : r.range(1, 4)));
	case 3: return g.margins();
	case 4: return g.flag(F_ORIGIN, r.p(0.5));
	case 5: return g.linefeed();
	case 6: return IN(g.sgr());
	case 7: return g.resize();
	default: return alt_switch(g);
	}
}

/* ---- C23: OSC ---- */
static Op next_c23(Gen &g)
{
	auto &r = g.r;
	if (r.p(0.2)) return IN(g.ascii(r.range(1, 3)));
	if (r.p(0.05)) return r.p(0.5) ? IN(g.sgr()) : g.cup_any();
	std::string body;
	switch (r.w({ 5, 4, 4, 3, 2 })) {
	case 0: body = g.S(r.below(20)) + ";" + g.ascii(r.below(30)); break;
	case 1: body = g.ascii(r.p(0.1) ? g.lit(0, 1100) : r.range(120, 135)); break;
	case 2: { std::string u = utf8(r.pick(std::vector<uint32_t>{ 0xe9, 0x20ac, 0x1f600, 0xa0, 0x7ff, 0xfffd, 0x10fffd })); int n = r.range(1, 66); while (n--) body += u; break; }
	case 3: { while (body.size() < 60 && r.p(0.9)) body += utf8(r.p(0.5) ? r.range(0x20, 0x7f) : any_cp(g)); break; }
	default: body = g.ascii(r.range(200, 1000)); break;
	}
	if (r.p(0.2)) for (int n = r.range(1, 3); n--; ) body.insert(body.begin() + (body.empty() ? 0 : 0), char(r.pick(VI{ 0, 1, 8, 9, 10, 13, 0x17, 0x1c, 0x1f })));
	if (r.p(0.05)) return Op(O_OSCCB, { r.p(0.7) });
	return IN(r.pick(VS{ "\x1b]", "\x1b]", "\xc2\x9d" }) + body + r.pick(VS{ "\x07", "\x07", "\x1b\\", "\xc2\x9c" }));
}

/* ---- C25: save / restore ---- */
static Op charset_op(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 10, 4, 6, 4 })) {
	case 0: return IN(std::string("\x1b") + "()*+"[r.below(4)] + r.pick(VS{ "B", "0", "<", "A", "4", "C", "5", "R", "Q", "K", "Y", "E", "6", "Z", "H", "7", "=" }));
	case 1: return IN(r.p(0.5) ? "\x0e" : "\x0f");
	case 2: return IN(r.pick(VS{ "\x1bn", "\x1bo", "\x1b~", "\x1b}", "\x1b|" }));
	default: return IN(r.pick(VS{ "\x1bN", "\x1bO", "\xc2\x8e", "\xc2\x8f" }));
	}
}
static Op next_c25(Gen &g)
{
	auto &r = g.r;
	g.wide_ok = false;
	switch (r.w({ 12, 12, 10, 8, 10, 6, 4, 5, 5, 2, 2, 4 })) {
	case 0: return IN("\x1b" "7");
	case 1: return IN("\x1b" "8");
	case 2: return g.cup_any();
	case 3: return IN(g.sgr());
	case 4: return g.print(r.range(1, 3));
	case 5: return charset_op(g);
	case 6: return g.flag(F_ORIGIN, r.p(0.5));
	case 7: return g.flag(F_WRAP, r.p(0.5));
	case 8: return g.margins();
	case 9: return g.resize();
	case 10: return r.p(0.5) ? IN("\x1b[!p") : g.C("2J");
	default: return g.C(r.p(0.5) ? "?1048h" : "?1048l");
	}
}

/* ---- C26: character sets ---- */
static Op next_c26(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 30, 40, 6, 3, 2, 2 })) {
	case 0: return charset_op(g);
	case 1: { std::string t; int n = r.range(1, 5); while (n--) t += raw_utf8(r.p(0.6) ? r.range(0x20, 0x7e) : r.range(0xa0, 0xff)); return IN(t); }
	case 2: return g.cup_any();
	case 3: return g.C(r.pick(VS{ "61\"p", "62\"p", "64\"p", "65\"p" }));
	case 4: return IN(r.p(0.5) ? "\x1b[!p" : "\x1b(F");
	default: return IN(g.text(2));
	}
}

/* ---- C27: modes ---- */
static Op next_c27(Gen &g)
{
	auto &r = g.r;
	g.wide_ok = false;
	switch (r.w({ 60, 6, 8, 4, 3, 3 })) {
	case 0: {
		bool q = r.p(0.7);
		std::string t = q ? "?" : "";
		int n = r.p(0.03) ? r.range(4, 18) : r.w({ 6, 3, 1 }) + 1;
		for (int i = 0; i < n; i++) {
			if (i) t += ";";
			if (q) t += r.pick(VS{ "1", "2", "3", "4", "5", "6", "7", "8", "12", "18", "19", "25", "42", "66", "1000", "2004", "", "0" });
			else t += r.pick(VS{ "2", "4", "12", "20", "4", "20", "1", "7", "25", "", "34" });
		}
		std::string out = t;
		return g.C(out + (r.p(0.5) ? "h" : "l"));
	}
	case 1: return IN(r.p(0.5) ? "\x1b=" : "\x1b>");
	case 2: return g.print(r.range(1, 3));
	case 3: return g.linefeed();
	case 4: return r.p(0.5) ? IN("\x1b[!p") : g.C(r.pick(VS{ "61\"p", "62;1\"p", "63;0\"p", "65\"p" }));
	default: return IN(r.p(0.5) ? "\x1b F" : "\x1b G");
	}
}

/* ---- C28: resize ---- */
static void setup_c28(Gen &g) { g.pend.push_back(g.init_size()); if (g.r.p(0.6)) g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 1, 3, 20, 100 }) })); }
static Op next_c28(Gen &g)
{
	auto &r = g.r;
	g.wide_ok = false;
	switch (r.w({ 26, 6, 12, 10, 5, 5, 3, 4, 3, 3, 3, 3 })) {
	case 0: return g.resize();
	case 1: return first_fill(g, r.p(0.3), false);
	case 2: return g.print(r.range(1, std::min(30u, g.s->w + 1)));
	case 3: return g.cup_any();
	case 4: return g.margins();
	case 5: return g.vte ? IN(g.csi("4" + g.S(r.range(0, 7)) + "m")) : g.linefeed();
	case 6: return g.flag(F_ORIGIN, r.p(0.5));
	case 7: return g.newline();
	case 8: return g.vte ? IN(r.p(0.5) ? "\t" : "\x1bH") : Op(O_TABR, { 1 });
	case 9: return r.p(0.5) ? Op(O_SBUP, { g.num(3) }) : Op(O_SBRESET);
	case 10: return g.flag(F_ALT, r.p(0.5));
	default: return g.N(g.num(g.s->w), "P", O_DELC);
	}
}

/* ---- everything ---- */
struct Sub { int w; Op (*f)(Gen &); bool api; };
static const Sub subs[] = { { 2, next_c06, false }, { 4, next_c07, false }, { 5, next_c08, true }, { 4, next_c09, true }, { 4, next_c10, true }, { 3, next_c11, true },
	{ 3, next_c12, true }, { 2, next_c13, true }, { 3, next_c14, true }, { 3, next_c15, true }, { 4, next_c16, true }, { 3, next_c17, false }, { 1, next_c20, false },
	{ 1, next_c21, false }, { 1, next_c22, false }, { 1, next_c23, false }, { 3, next_c25, false }, { 2, next_c26, false }, { 2, next_c27, false }, { 2, next_c28, true } };
Op next_mix(Gen &g)
{
	if (g.vte && g.r.p(0.04)) return IN(near_csi(g));
	if (g.vte && g.r.p(0.004)) return Op(g.r.p(0.5) ? O_OSCCB : O_MOUSECB, { g.r.p(0.6) });
	if (g.sel_ok && g.s->sel && g.s->sel_vague && g.r.p(0.4)) return Op(O_SELRST);
	if (g.sel_ok && g.r.p(0.1)) switch (g.r.w({ 6, 8, 3, 1 })) {
	case 0: return Op(O_SELST, { g.r.range(0, g.s->w), g.r.range(0, g.s->h) });
	case 1: return Op(O_SELTGT, { g.r.range(0, g.s->w), g.r.range(0, g.s->h) });
	case 2: return Op(O_SELCOPY);
	default: return Op(O_SELRST);
	}
	for (;;) {
		const Sub &s = subs[g.r.below(sizeof subs / sizeof *subs)];
		if (!g.vte && !s.api) continue;
		if (g.r.below(5) >= (uint64_t)s.w) continue;
		g.wide_ok = true;
		return s.f(g);
	}
}
static void setup_c43(Gen &g) { g.sel_ok = g.r.p(0.25); g.pend.push_back(g.init_size(true)); if (g.r.p(0.6)) g.pend.push_back(Op(O_MAXSB, { g.r.pick(VI{ 1, 2, 5, 20, 300 }) })); }
void setup_any(Gen &g) { setup_c43(g); }
/* many embedding applications register none of the optional callbacks */
std::vector<Op> no_callbacks(Gen &g)
{
	std::vector<Op> v;
	if (g.vte && g.r.p(0.12)) {
		int which = g.r.range(1, 3);
		if (which & 1) v.push_back(Op(O_MOUSECB, { 0 }));
		if (which & 2) v.push_back(Op(O_OSCCB, { 0 }));
	}
	return v;
}
Op gen_any(Gen &g)
{
	if (g.r.p(0.06)) return next_c19(g);
	if (g.r.p(0.01)) return g.vte ? IN("\x1b" "c") : Op(O_SRESET);
	return next_mix(g);
}

/* ---- C37: local echo ---- */
static Op next_c37(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 40, 10, 8, 6, 6, 10, 4, 3 })) {
	case 0: { Op o = key_op(g); if (r.p(0.3)) o.a[0] = r.pick(VI{ 0xff51, 0xff52, 0xff53, 0xff54, 0xff50, 0xff57, 0xff0d, 0xff08, 0xff09, 0xff1b, 0xffff, 0xff63, 0xff8d }); return o; }
	case 1: return g.C(r.p(0.65) ? "12l" : "12h");
	case 2: return next_c22(g);
	case 3: return Op(O_MOUSE, { r.range(0, 90), r.range(0, 30), r.range(0, 900), r.range(0, 500), r.range(0, 5), r.pick(VI{ 1, 2, 4 }), r.pick(VI{ 0, 4, 8, 16 }) });
	case 4: return g.C(r.pick(VS{ "?9h", "?1000h", "?1002h", "?1003h", "?1006h", "?1016h", "?1006l", "?1000l" }));
	case 5: return next_c20(g);
	case 6: return IN(g.text(r.range(1, 8)));
	default: { /* a key arrives in the middle of a sequence of the client */
		std::string t = r.pick(VS{ "\x1b", "\x1b[", "\x1b[3", "\x1b]0;a", "\xe2\x82", "\x1b(", "\x1bP1" });
		g.pend.push_back(key_op(g));
		return IN(t);
	} }
}

/* ---- C46: calls from within callbacks ---- */
static Op trigger(Gen &g)
{
	auto &r = g.r;
	switch (r.w({ 10, 10, 8, 8, 3 })) {
	case 0: { Op o = next_c23(g); if (o.k == O_IN && r.p(0.7)) o.s = "\x1b]" + g.S(r.below(9)) + ";" + g.ascii(r.below(9)) + r.pick(VS{ "\x07", "\x1b\\", "\xc2\x9c", "\x1b" "c", "\x18", "\x1a", "\xc2\x8d", "\xc2\x85", "\x1b[2J", "\x1b[!p" }); return o; }
	case 1: {
		if (r.p(0.5)) { static const char *const m[] = { "1000", "1002", "1003", "1006", "1016", "9" };
			std::string t = "?"; int n = r.range(1, 4); while (n--) { t += r.p(0.8) ? m[r.below(6)] : r.pick(VS{ "6", "7", "25", "47", "1049", "5" }); if (n) t += ";"; }
			return g.C(t + (r.p(0.75) ? "h" : "l")); }
		return next_c21(g);
	}
	case 2: return query(g);
	case 3: return key_op(g);
	default: return IN(r.p(0.5) ? "\x1b" "c" : "\x1b[!p");
	}
}
static Op next_c46(Gen &g)
{
	auto &r = g.r;
	g.wide_ok = true;
	if (!r.p(0.35)) return r.p(0.6) ? trigger(g) : next_mix(g);
	int cb = r.below(3);
	Op o(O_DRAW);
	for (int i = 0; i < 60; i++) {
		size_t n = g.pend.size();
		o = r.p(0.1) ? Op(O_DRAW) : r.p(0.1) ? pal_op(g) : r.p(0.12) ? g.resize() : r.p(0.06) ? Op(r.p(0.5) ? O_VRESET : O_VHARD) :
		    r.p(0.1) ? Op(O_SETF, { (int64_t)r.below(128) }) : r.p(0.1) ? Op(O_CLRF, { (int64_t)r.below(128) }) : r.p(0.08) ? Op(O_OSCCB, { r.p(0.6) }) :
		    r.p(0.08) ? Op(O_MOUSECB, { r.p(0.6) }) : [&] { g.vte = r.p(0.2); Op q = next_mix(g); g.vte = true; return q; }();
		g.pend.resize(n);
		if (in_cb(cb, o.k)) break;
	}
	if (!in_cb(cb, o.k)) o = Op(O_DRAW);
	g.pend.push_back(o);
	if (r.p(0.6)) for (int k = r.range(1, 2); k--; ) g.pend.push_back(trigger(g));
	return Op(O_ONCB, { cb });
}

/* ---- C47: several emulators on one screen ---- */
static Op next_c47(Gen &g)
{
	auto &r = g.r;
	g.wide_ok = true;
	auto sw = [&] { return Op(O_VSWAP); };
	switch (r.w({ 100, 16, 5, 4, 12, 8, 4 })) {
	case 0: return next_mix(g);
	case 1: return sw();
	case 2: return Op(O_VNEW, { r.p(0.5) });
	case 3: return Op(O_VDROP);
	case 4: { /* something begun in one emulator, something else in the other, and the rest */
		static const std::vector<std::pair<std::string, std::string>> v = {
			{ "\x1b[", "3;4H" }, { "\x1b[3", "1m" }, { "\x1b[2;", "5r" }, { "\xe4", "\xb8\xad" }, { "\xf0\x9f", "\x98\x80" }, { "\x1b]2;a", "b\x07" }, { "\x1b(", "0q" }, { "\x1b", "7" },
			{ "\x1b[?", "7l" }, { "\x1bN", "a" }, { "\x1b[?1", "h" }, { "\x1bP1;", "2q\x1b\\" }, { "\x1b[1", "2l" }, { "\x0e", "aq" }, { "\x1b[?6;", "25l" }, { "\x1b[", "6n" }, { "\x1b]0;", "\x18" },
		};
		auto &p = r.pick(v);
		g.pend.push_back(sw());
		g.pend.push_back(r.p(0.7) ? IN(g.text(r.range(1, 4))) : next_mix(g));
		g.pend.push_back(r.p(0.1) ? Op(O_VNEW, { r.p(0.5) }) : sw());
		g.pend.push_back(IN(p.second));
		return IN(p.first);
	}
	case 5: { /* what one emulator saves is not the other's */
		static const std::vector<std::pair<std::string, std::string>> v = {
			{ "\x1b" "7", "\x1b" "8" }, { "\x1b[?1048h", "\x1b[?1048l" }, { "\x1b[?1049h", "\x1b[?1049l" }, { "\x1b[?47h", "\x1b[?47l" }, { "\x1b[s", "\x1b[u" }, { "\x1b[?1000;1006h", "\x1b[?1000l" }, { "\x1b[1;31m", "\x1b[K" }, { "\x1b)0\x0e", "\x0f" },
		};
		auto &p = r.pick(v);
		int n = r.range(0, 2);
		while (n--) g.pend.push_back(next_mix(g));
		g.pend.push_back(sw());
		g.pend.push_back(r.p(0.5) ? IN(p.second) : next_mix(g));
		if (r.p(0.5)) { g.pend.push_back(sw()); g.pend.push_back(IN(p.second)); }
		return IN(p.first);
	}
	default: return pal_op(g);
	}
}

static const Profile profiles[] = {
	{ "C06", M_CUR | M_CELL, 2, 8, 40, setup_c06, next_c06 },
	{ "C07", M_CUR | M_CELL | M_ATTR | M_SFL | M_VFL | M_OUT | M_OSC | M_MCB | M_MGET, 2, 8, 50, setup_min, next_c07 },
	{ "C08", M_CUR | M_CELL | M_ATTR, 1, 8, 60, setup_min, next_c08 },
	{ "C09", M_CUR | M_ATTR, 1, 8, 60, setup_min, next_c09 },
	{ "C10", M_CUR | M_CELL | M_SB, 1, 8, 50, setup_tall, next_c10 },
	{ "C11", M_CUR | M_CELL | M_ATTR, 1, 8, 60, setup_tall, next_c11 },
	{ "C12", M_CUR | M_CELL | M_ATTR, 1, 8, 60, setup_tall, next_c12 },
	{ "C13", M_CUR, 1, 8, 60, setup_c13, next_c13 },
	{ "C14", M_CELL | M_ATTR | M_SB, 1, 10, 60, setup_c14, next_c14 },
	{ "C15", M_CELL | M_SB, 1, 10, 80, setup_c15, next_c15 },
	{ "C16", M_CUR | M_CELL | M_ATTR | M_SB | M_SFL, 1, 10, 60, setup_c16, next_c16 },
	{ "C17", M_CELL | M_ATTR | M_DEFA, 2, 10, 60, setup_c17, next_c17 },
	{ "C19", M_SEL | M_ATTR, 1, 10, 80, setup_c19, next_c19 },
	{ "C20", M_OUT | M_RET, 2, 10, 80, setup_min, next_c20 },
	{ "C21", M_OUT | M_RET | M_MCB | M_MGET | M_CB, 2, 10, 80, setup_min, next_c21 },
	{ "C22", M_OUT, 2, 10, 60, setup_min, next_c22 },
	{ "C23", M_OSC | M_CELL | M_CUR, 2, 5, 30, setup_min, next_c23 },
	{ "C25", M_CUR | M_CELL | M_ATTR | M_SFL | M_VFL, 2, 8, 60, setup_min, next_c25 },
	{ "C26", M_CUR | M_CELL, 2, 8, 60, setup_min, next_c26 },
	{ "C27", M_SFL | M_VFL | M_ATTR | M_CUR | M_CELL, 2, 8, 60, setup_min, next_c27 },
	{ "C28", M_CUR | M_CELL | M_ATTR | M_SB | M_SIZE, 1, 8, 60, setup_c28, next_c28 },
	{ "C37", M_OUT | M_CELL | M_ATTR | M_CUR | M_RET | M_VFL, 2, 10, 60, setup_min, next_c37 },
	{ "C43", M_CUR | M_CELL | M_ATTR | M_SB | M_SFL | M_VFL | M_OUT | M_OSC | M_MCB | M_MGET | M_RET | M_SIZE | M_DEFA | M_SEL, 1, 20, 120, setup_c43, next_mix },
	{ "C46", M_CUR | M_CELL | M_ATTR | M_SB | M_SFL | M_VFL | M_OUT | M_OSC | M_MCB | M_MGET | M_RET | M_SIZE | M_DEFA | M_SEL, 2, 10, 70, setup_c43, next_c46 },
	{ "C47", M_CUR | M_CELL | M_ATTR | M_SB | M_SFL | M_VFL | M_OUT | M_OSC | M_MCB | M_MGET | M_RET | M_SIZE | M_DEFA | M_SEL, 2, 10, 70, setup_c43, next_c47 },
};
const Profile *find_profile(const std::string &id)
{
	for (auto &p : profiles) if (id == p.id) return &p;
	return nullptr;
}
std::string any_bytes(Gen &g)
{
	for (int i = 0; i < 50; i++) { Op o = gen_any(g); if (o.k == O_IN) return o.s; }
	return "x";
}

/* Checks with an enumerated part: all code points and all ill-formed byte
 * pairs (C06), all key symbols in all modes (C20). */
#include "check.hpp"
using namespace model;

static std::string raw(uint32_t g)	/* the bit pattern, also of what is not a character */
{
	std::string s;
	if (g < 0x80) s += char(g);
	else if (g < 0x800) { s += char(0xc0 | g >> 6); s += char(0x80 | (g & 63)); }
	else if (g < 0x10000) { s += char(0xe0 | g >> 12); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	else { s += char(0xf0 | g >> 18); s += char(0x80 | (g >> 12 & 63)); s += char(0x80 | (g >> 6 & 63)); s += char(0x80 | (g & 63)); }
	return s;
}

/* ---- C06 ---- */
enum { CP_CASES = 0x110000 / 4096, PAIR_CASES = 256, TRI_CASES = 16, QUAD_CASES = 16, C06_ENUM = CP_CASES + PAIR_CASES + TRI_CASES + QUAD_CASES };
static void gen06(uint64_t seed, uint64_t i, bool, Case &c)
{
	static const unsigned char B3[] = { 0x00, 0x1b, 0x28, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff };
	static const unsigned char B4[] = { 0x41, 0x80, 0xbf, 0xc3, 0xe1, 0xff };
	if (i >= C06_ENUM) { diff_gen("C06", seed, i - C06_ENUM, c); return; }
	c.p = { 1, 1 };
	std::string t;
	/* start of line, back in the ground state whatever the previous bytes were */
	auto flush = [&](bool force) { if (t.size() > 150 || force) { c.ops.push_back(IN("\x18\x1b[!p\x1b[H\x1b[2J" + t)); t.clear(); } };
	if (i < CP_CASES) {
		for (uint32_t g = i * 4096; g < (i + 1) * 4096; g++) {
			if (g < 0x20 || (g >= 0x7f && g < 0xa0)) continue;
			t += raw(g);
			flush(false);
		}
	} else if ((i -= CP_CASES) < PAIR_CASES) {
		for (int b = 0; b < 256; b++) {
			t += "A"; t += char(i); t += char(b); t += "B\x18";
			flush(b % 8 == 7);
		}
	} else if ((i -= PAIR_CASES) < TRI_CASES) {
		for (int b = 0; b < 256; b++) for (unsigned char d : B3) { t += "A"; t += char(0xe0 + i); t += char(b); t += char(d); t += "B\x18"; flush(false); }
	} else {
		i -= TRI_CASES;
		std::vector<int> second;
		for (unsigned char d : B3) second.push_back(d);
		for (int b = 0x81; b < 0xbf; b++) second.push_back(b);
		for (int b : second) for (unsigned char d : B4) for (unsigned char e : B4) { t += "A"; t += char(0xf0 + i); t += char(b); t += char(d); t += char(e); t += "B\x18"; flush(false); }
	}
	flush(true);
}
static void eval06(const Case &c, Result &r)
{
	diff_eval("C06", c, r);
	for (auto &o : c.ops) if (o.k == O_IN) r.n["bytes_decoded"] += o.s.size();
}

/* ---- C20 ---- */
enum { C20_MODES = 2 * 2 * 2 * 3 * 2, C20_ENUM = C20_MODES * 32 };
static void gen20(uint64_t seed, uint64_t i, bool thorough, Case &c)
{
	if (i >= C20_ENUM) { diff_gen("C20", seed, i - C20_ENUM, c); c.p.insert(c.p.begin(), 0); return; }
	int m = i / 32;
	std::string t = "\x1b[?1";
	t += m & 1 ? "h" : "l";
	t += m & 2 ? "\x1b=" : "\x1b>";
	t += m & 4 ? "\x1b[20h" : "\x1b[20l";
	int cs = (m >> 4) % 3;
	/* a soft reset returns to UTF-8 input; conformance levels select 7-bit or 8-bit input */
	c.p = { 1, (int64_t)(i % 32), thorough };
	if (cs == 1) c.ops.push_back(IN("\x1b[61\"p"));
	if (cs == 2) c.ops.push_back(IN("\x1b[62;1\"p"));
	if (cs) { c.ops.back().s = cs == 1 ? "\x1b[61\"p" : "\x1b[63\"p"; }
	c.ops.push_back(IN(t));
	c.ops.push_back(Op(O_BSDEL, { m >> 3 & 1 }));
}
static void eval20(const Case &c, Result &r)
{
	if (!c.p[0]) { Case d = c; d.p.erase(d.p.begin()); diff_eval("C20", d, r); return; }
	Real R;
	Mod M;
	for (auto &o : c.ops) { R.apply(o); M.apply(o); }
	unsigned mods = c.p[1];
	auto one = [&](uint32_t sym, uint32_t ascii, uint32_t uni) {
		R.out.clear(); M.v->out.clear();
		bool a = tsm_vte_handle_keyboard(R.v, sym, ascii, mods, uni), b = M.v->key(sym, ascii, mods, uni);
		r.evals++;
		r.n["keys_consumed"] += a;
		if (a != b || R.out != M.v->out)
			return r.fail("key", fmt("keysym %#x ascii %#x modifiers %#x unicode %#x: returned %d and sent \"", sym, ascii, mods, uni, a) + esc_bytes(R.out) + fmt("\", expected %d and \"", b) + esc_bytes(M.v->out) + "\"");
		if (!a && !R.out.empty()) return r.fail("key", fmt("keysym %#x sent data but was reported as not handled", sym));
		return true;
	};
	auto block = [&](uint32_t lo, uint32_t hi) {
		for (uint32_t k = lo; k < hi; k++) {
			if (!one(k, 0, 0xffffffff) || !one(k, 0, 'q')) return false;
			if (k < 0x200 && (!one(k, k, k) || !one(k, k, 0xffffffff) || !one(k, 'c', 0xffffffff))) return false;
		}
		return true;
	};
	static const uint32_t uni[] = { 0, 1, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000 };
	for (uint32_t u : uni) if (!one(0xffffff, 0, u) || !one(0x1000000 + u, 0, u) || !one(0xfe03, 0, u)) return;
	if (c.p[2]) { if (!block(0, 0x10000)) return; }
	else { if (!block(0, 0x200) || !block(0xfe00, 0x10000)) return; }
	unsigned f = tsm_vte_get_flags(R.v);
	if (f != M.v->flags) { r.fail("key", fmt("terminal flags %#x, expected %#x", f, M.v->flags)); return; }
	r.state = mix(f * 32 + mods, c.ops.back().v(0));
	r.note = fmt("all key symbols with modifiers %#x after ", mods) + ops_str(c.ops);
}

extern const CheckDef special_checks[];
const CheckDef special_checks[] = {
	{ "C06", C06_ENUM + 40000, C06_ENUM + 2500000, gen06, eval06 },
	{ "C20", C20_ENUM + 200000, C20_ENUM + 6000000, gen20, eval20 },
	{ nullptr, 0, 0, nullptr, nullptr }
};

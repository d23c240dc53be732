#include "model.hpp"
namespace model {
const char *palette_names[8] = { "legacy", "vga", "solarized", "solarized-black", "solarized-white", "soft-black", "base16-dark", "base16-light" };
const uint8_t palettes[8][18][3] = {
	{ /* legacy */
		{ 0, 0, 0 },
		{ 205, 0, 0 },
		{ 0, 205, 0 },
		{ 205, 205, 0 },
		{ 0, 0, 238 },
		{ 205, 0, 205 },
		{ 0, 205, 205 },
		{ 229, 229, 229 },
		{ 127, 127, 127 },
		{ 255, 0, 0 },
		{ 0, 255, 0 },
		{ 255, 255, 0 },
		{ 92, 92, 255 },
		{ 255, 0, 255 },
		{ 0, 255, 255 },
		{ 255, 255, 255 },
		{ 229, 229, 229 },
		{ 0, 0, 0 },
	},
	{ /* vga */
		{ 0, 0, 0 },
		{ 170, 0, 0 },
		{ 0, 170, 0 },
		{ 170, 85, 0 },
		{ 0, 0, 170 },
		{ 170, 0, 170 },
		{ 0, 170, 170 },
		{ 170, 170, 170 },
		{ 85, 85, 85 },
		{ 255, 85, 85 },
		{ 85, 255, 85 },
		{ 255, 255, 85 },
		{ 85, 85, 255 },
		{ 255, 85, 255 },
		{ 85, 255, 255 },
		{ 255, 255, 255 },
		{ 170, 170, 170 },
		{ 0, 0, 0 },
	},
	{ /* solarized */
		{ 7, 54, 66 },
		{ 220, 50, 47 },
		{ 133, 153, 0 },
		{ 181, 137, 0 },
		{ 38, 139, 210 },
		{ 211, 54, 130 },
		{ 42, 161, 152 },
		{ 238, 232, 213 },
		{ 0, 43, 54 },
		{ 203, 75, 22 },
		{ 88, 110, 117 },
		{ 101, 123, 131 },
		{ 131, 148, 150 },
		{ 108, 113, 196 },
		{ 147, 161, 161 },
		{ 253, 246, 227 },
		{ 238, 232, 213 },
		{ 7, 54, 66 },
	},
	{ /* solarized-black */
		{ 0, 0, 0 },
		{ 220, 50, 47 },
		{ 133, 153, 0 },
		{ 181, 137, 0 },
		{ 38, 139, 210 },
		{ 211, 54, 130 },
		{ 42, 161, 152 },
		{ 238, 232, 213 },
		{ 0, 43, 54 },
		{ 203, 75, 22 },
		{ 88, 110, 117 },
		{ 101, 123, 131 },
		{ 131, 148, 150 },
		{ 108, 113, 196 },
		{ 147, 161, 161 },
		{ 253, 246, 227 },
		{ 238, 232, 213 },
		{ 0, 0, 0 },
	},
	{ /* solarized-white */
		{ 7, 54, 66 },
		{ 220, 50, 47 },
		{ 133, 153, 0 },
		{ 181, 137, 0 },
		{ 38, 139, 210 },
		{ 211, 54, 130 },
		{ 42, 161, 152 },
		{ 238, 232, 213 },
		{ 0, 43, 54 },
		{ 203, 75, 22 },
		{ 88, 110, 117 },
		{ 101, 123, 131 },
		{ 131, 148, 150 },
		{ 108, 113, 196 },
		{ 147, 161, 161 },
		{ 253, 246, 227 },
		{ 7, 54, 66 },
		{ 238, 232, 213 },
	},
	{ /* soft-black */
		{ 63, 63, 63 },
		{ 112, 80, 80 },
		{ 96, 180, 138 },
		{ 223, 175, 143 },
		{ 154, 184, 215 },
		{ 220, 140, 195 },
		{ 140, 208, 211 },
		{ 255, 255, 255 },
		{ 112, 144, 128 },
		{ 220, 163, 163 },
		{ 114, 213, 163 },
		{ 240, 223, 175 },
		{ 148, 191, 243 },
		{ 236, 147, 211 },
		{ 147, 224, 227 },
		{ 220, 220, 204 },
		{ 220, 220, 204 },
		{ 44, 44, 44 },
	},
	{ /* base16-dark */
		{ 0, 0, 0 },
		{ 171, 70, 66 },
		{ 161, 181, 108 },
		{ 247, 202, 136 },
		{ 124, 175, 194 },
		{ 186, 139, 175 },
		{ 134, 193, 185 },
		{ 170, 170, 170 },
		{ 85, 85, 85 },
		{ 171, 70, 66 },
		{ 161, 181, 108 },
		{ 247, 202, 136 },
		{ 124, 175, 194 },
		{ 186, 139, 175 },
		{ 134, 193, 185 },
		{ 255, 255, 255 },
		{ 216, 216, 216 },
		{ 24, 24, 24 },
	},
	{ /* base16-light */
		{ 0, 0, 0 },
		{ 171, 70, 66 },
		{ 161, 181, 108 },
		{ 247, 202, 136 },
		{ 124, 175, 194 },
		{ 186, 139, 175 },
		{ 134, 193, 185 },
		{ 170, 170, 170 },
		{ 85, 85, 85 },
		{ 171, 70, 66 },
		{ 161, 181, 108 },
		{ 247, 202, 136 },
		{ 124, 175, 194 },
		{ 186, 139, 175 },
		{ 134, 193, 185 },
		{ 255, 255, 255 },
		{ 24, 24, 24 },
		{ 216, 216, 216 },
	},
};

/* --- keyboard: what each key sends (X11 keysym values) --- */
enum { SHIFT = 1, CONTROL = 4, ALT = 8 };

bool Vte::key(uint32_t k, uint32_t ascii, unsigned mods, uint32_t unicode)
{
	bool app = flags & V_KEYPAD, ck = flags & V_CURSOR_KEY;
	bool shift = mods & SHIFT, ctrl = mods & CONTROL;
	auto emit = [&](const std::string &t) { if (mods & ALT) flags |= V_PREPEND; send(t); return true; };
	auto E = [](const char *t) { return std::string("\x1b") + t; };
	if (ctrl) {
		uint32_t y = ascii ? ascii : k;
		int c = -1;
		if (y >= 'a' && y <= 'z') c = y - 'a' + 1;
		else if (y >= 'A' && y <= 'Z') c = y - 'A' + 1;
		else switch (y) {
		case '2': case ' ': c = 0; break;
		case '3': case '[': case '{': c = 0x1b; break;
		case '4': case '\\': case '|': c = 0x1c; break;
		case '5': case ']': case '}': c = 0x1d; break;
		case '6': case '`': case '~': c = 0x1e; break;
		case '7': case '/': case '?': c = 0x1f; break;
		case '8': c = 0x7f; break;
		}
		if (c >= 0) return emit(std::string(1, char(c)));
	}
	switch (k) {
	case 0xff08: return emit(bs_del ? "\x7f" : "\x08");
	case 0xff09: case 0xff89: return emit("\x09");
	case 0xfe20: return emit(E("[Z"));
	case 0xff0a: return emit("\x0a");
	case 0xff0b: return emit("\x0b");
	case 0xff15: return emit("\x15");
	case 0xff1b: return emit("\x1b");
	case 0xff8d: if (app) return emit(E("OM")); /* fallthrough */
	case 0xff0d: return emit(flags & V_LNM ? "\r\n" : "\r");
	case 0xff68: return emit(E("[1~"));
	case 0xff63: return emit(E("[2~"));
	case 0xffff: return emit(E("[3~"));
	case 0xff60: return emit(E("[4~"));
	case 0xff55: case 0xff9a: return emit(E("[5~"));
	case 0xff56: case 0xff9b: return emit(E("[6~"));
	case 0xff52: case 0xff97: return emit(ctrl ? E("[1;5A") : ck ? E("OA") : E("[A"));
	case 0xff54: case 0xff99: return emit(ctrl ? E("[1;5B") : ck ? E("OB") : E("[B"));
	case 0xff53: case 0xff98: return emit(ctrl ? E("[1;5C") : ck ? E("OC") : E("[C"));
	case 0xff51: case 0xff96: return emit(ctrl ? E("[1;5D") : ck ? E("OD") : E("[D"));
	case 0xff9e: return emit(app ? E("Op") : "0");
	case 0xffad: return emit(app ? E("Om") : "-");
	case 0xffac: return emit(app ? E("Ol") : ",");
	case 0xff9f: case 0xffae: return emit(app ? E("On") : ".");
	case 0xffbd: case 0xffaf: return emit(app ? E("Oj") : "/");
	case 0xffaa: return emit(app ? E("Oo") : "*");
	case 0xffab: return emit(app ? E("Ok") : "+");
	case 0xff50: case 0xff95: return emit(ck ? E("OH") : E("[H"));
	case 0xff57: case 0xff9c: return emit(ck ? E("OF") : E("[F"));
	case 0xff80: return emit(" ");
	}
	if (k >= 0xffb0 && k <= 0xffb9) {	/* keypad digits */
		char d = char(k - 0xffb0);
		return emit(app ? E("O") + char('p' + d) : std::string(1, char('0' + d)));
	}
	int f = 0;
	if (k >= 0xffbe && k <= 0xffd1) f = k - 0xffbe + 1;
	if (k >= 0xff91 && k <= 0xff94) f = k - 0xff91 + 1;
	if (f) {
		static const char *plain[20] = { "OP", "OQ", "OR", "OS", "[15~", "[17~", "[18~", "[19~", "[20~", "[21~",
			"[23~", "[24~", "[25~", "[26~", "[28~", "[29~", "[31~", "[32~", "[33~", "[34~" };
		static const char *shifted[20] = { "[23~", "[24~", "[25~", "[26~", "[28~", "[29~", "[31~", "[32~", "[33~", "[34~",
			"[23;2~", "[24;2~", "[25;2~", "[26;2~", "[28;2~", "[29;2~", "[31;2~", "[32;2~", "[33;2~", "[34;2~" };
		return emit(E(shift ? shifted[f - 1] : plain[f - 1]));
	}
	if (unicode != 0xffffffff) {
		if (flags & V_7BIT) return emit(std::string(1, unicode > 0x7f ? '?' : char(unicode)));
		if (flags & V_8BIT) return emit(std::string(1, unicode > 0xff ? '?' : char(unicode)));
		return emit(utf8(unicode));
	}
	return false;
}

bool Vte::mouse_ev(unsigned x, unsigned y, unsigned px, unsigned py, unsigned button, unsigned event, unsigned mods)
{
	const unsigned PRESSED = 1, RELEASED = 2, MOVED = 4;
	char b[64];
	if ((event & MOVED) && (mmode == 9 || mevent != 1003)) return false;
	if (mmode == 9) {
		if (event & RELEASED) button = 3;
		std::string t = "\x1b[M";
		t += char((button | mods) + 32);
		t += char(std::min(x, 222u) + 33);
		t += char(std::min(y, 222u) + 33);
		send(t);
		return true;
	}
	if ((mmode != 1006 && mmode != 1016) || !mevent) return false;
	if (button == 4) button = 64; else if (button == 5) button = 65;
	unsigned code = (button | mods) & 255;
	bool press = event & PRESSED;
	if (mmode == 1006) {
		x++; y++;
		if (event & MOVED) {
			if (x == mlx && y == mly) return false;
			code = 35; press = true; mlx = x; mly = y;
		}
		snprintf(b, sizeof b, "\x1b[<%d;%d;%d%c", int(code), int(x), int(y), press ? 'M' : 'm');
	} else {
		if (event == MOVED) { code = 35; press = true; }
		snprintf(b, sizeof b, "\x1b[<%d;%d;%d%c", int(code), int(px), int(py), press ? 'M' : 'm');
	}
	send(b);
	return true;
}

} // namespace model

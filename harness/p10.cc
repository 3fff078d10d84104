// P10: numbers, their texts and character codes convert exactly and consistently.
#include "model.h"
extern "C" int sh_set_anum(const char* name, int x, int32_t v);
namespace {
std::string plain(const MStr& s){ return std::string(s.begin(), s.end()); }
// exact value of a decimal text, towards zero; false if it can not be represented
bool denotes(const std::string& s, fx& out){
	size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') neg = true, ++i;
	__int128 ip = 0, fr = 0, m = 1; for (; i < s.size() && isdigit(s[i]); ++i) if (ip < (1LL << 50)) ip = ip * 10 + s[i] - '0';
	if (i < s.size() && s[i] == '.') for (++i; i < s.size(); ++i){ fr = fr * 10 + s[i] - '0'; m *= 10; }
	__int128 v = ip * 4096 + 4096 * fr / m; if (neg) v = -v; if (v > INT32_MAX || v < INT32_MIN) return false; out = (fx)v; return true;
}
void type_keys(const std::string& t){ for (char ch : t) sh_inkey(golden_wide[(uint8_t)ch]); sh_inkey('\r'); }
fx arr(const char* n, int i){ fx v = 0; sh_anum(n, i, -1, &v); return v; }
WStr sarr(const char* n, int i){ uint16_t b[512]; int k = sh_astr(n, i, -1, b); return WStr(b, k < 0 ? 0 : k); }
WStr row(int y, size_t n){ WStr r; for (size_t x = 0; x < n; ++x){ uint16_t w = sh_con_char((int)x, y); r += w ? w : golden_wide[' ']; } return r; }

void numbers(G& g, Case& c){
	fx v[24]; int mode = g.below(4); c.label(strf("numbers: %s", mode == 0 ? "any" : mode == 1 ? "consecutive" : mode == 2 ? "near integers" : "near powers of ten"));
	uint32_t base = g.bits();
	for (int i = 0; i < 24; ++i) switch (mode){
		case 0: v[i] = gen_fx(g); break;
		case 1: v[i] = (fx)(base + i); break;
		case 2: v[i] = (fx)((uint32_t)g.range(-524288, 524287) * 4096u + (uint32_t)g.range(-9, 9)); break;
		default: { static const int p[] = {0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 524287, 500000, 101, 1001, 20304}; int64_t x = (int64_t)p[g.below(17)] * 4096 + g.range(-4096, 4096); if (g.chance(1, 2)) x = -x; v[i] = x > INT32_MAX ? INT32_MAX : x < INT32_MIN ? INT32_MIN : (fx)x; }
	}
	std::string d; for (fx x : v) d += fxs(x) + " "; c.text = "numbers " + d; note_text(c.text);
	sh_new(64, 128, 1024); run_prog("DIM N[24],W[24],X[24],S$[24],T$[24]\r"); for (int i = 0; i < 24; ++i) sh_set_anum("N", i, v[i]);
	int e = run_prog("CLS:FOR I=0 TO 23:S$[I]=STR$(N[I]):PRINT N[I]:NEXT\rDONE=1\r"); if (e || get_num("DONE") != 4096) c.fail("STR$ or PRINT ends with %s", err_name(e).c_str());
	std::string lit; int val_skip = 0; bool rep[24]; fx want[24];
	// the screen scrolled by one line after the last PRINT, unless it waits for the next one
	int cx, cy; sh_con_pos(&cx, &cy); int off = cy == 24 ? 0 : 1;
	for (int i = 0; i < 24; ++i){
		std::string t = plain(model_str(v[i])); WStr w = gwiden(mstr(t)), s = sarr("S$", i);
		if (s != w) c.fail("STR$ of %s is %s, expected %s", fxs(v[i]).c_str(), showw(s).c_str(), t.c_str());
		if (i >= off){ WStr p = row(i - off, 32), q = w; while (q.size() < 32) q += golden_wide[' ']; if (p != q) c.fail("PRINT of %s shows %s, expected %s", fxs(v[i]).c_str(), showw(p).c_str(), t.c_str()); }
		// what the text says is close to the number, with at most 3 fractional digits and nothing superfluous
		size_t dot = t.find('.'); if (dot != std::string::npos && (t.size() - dot > 4 || t.back() == '0')) c.fail("text %s", t.c_str());
		double x = atof(t.c_str()), y = v[i] / 4096.0; if (x - y > 0.001 || y - x > 0.001) c.fail("%s is shown as %s", fxs(v[i]).c_str(), t.c_str());
		rep[i] = denotes(t, want[i]); if (!rep[i]){ ++val_skip; continue; }
		if (t[0] != '-' || t.substr(0, 7) != "-524288") lit += strf("X[%d]=%s\r", i, t.c_str()); else lit += strf("X[%d]=VAL(\"%s\")\r", i, t.c_str()); // the literal without its sign is too large
	}
	std::string dat; e = run_prog("FOR I=0 TO 23:K=VAL(S$[I]):W[I]=K:NEXT\r" + lit + "DONE=2\r"); if (e || get_num("DONE") != 8192) c.fail("VAL or a literal ends with %s", err_name(e).c_str());
	for (int i = 0; i < 24; ++i) if (rep[i]){ if (arr("W", i) != want[i]) c.fail("VAL(\"%s\") is %s, expected %s", plain(model_str(v[i])).c_str(), fxs(arr("W", i)).c_str(), fxs(want[i]).c_str()); if (arr("X", i) != want[i]) c.fail("the literal %s is %s, expected %s", plain(model_str(v[i])).c_str(), fxs(arr("X", i)).c_str(), fxs(want[i]).c_str()); }
	c.label("numbers converted", 24); c.nontrivial(val_skip < 20);
}
void texts(G& g, Case& c){
	std::vector<std::string> t; std::vector<fx> w; std::string d;
	for (int k = 0; k < 6; ++k){
		std::string s = g.chance(1, 3) ? "-" : ""; int zi = g.chance(1, 6) ? g.range(1, 4) : 0; s += std::string(zi, '0');
		switch (g.below(4)){ case 0: s += std::to_string(g.range(0, 9)); break; case 1: s += std::to_string(g.range(0, 999)); break; case 2: s += std::to_string(g.range(0, 524287)); break; default: if (!zi && g.chance(1, 2)) s += "0"; }
		if (g.chance(2, 3)){ s += '.'; int n = g.weighted({1, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1}); int nine = g.below(4); for (int i = 0; i < n; ++i) s += nine == 0 ? '9' : nine == 1 && i + 1 < n ? '0' : '0' + g.below(10); }
		if (s.find_first_of("0123456789") == std::string::npos) s += "0";
		fx v; if (!denotes(s, v)) continue; t.push_back(s); w.push_back(v); d += s + " ";
	}
	if (t.empty()) return;
	c.text = "texts " + d; note_text(c.text); sh_new(64, 128, 1024);
	std::string P = "DIM V[8],L[8],R[8],Q[8]\rRESTORE @D\r", D = "@D\r";
	for (size_t i = 0; i < t.size(); ++i){
		P += strf("V[%zu]=VAL(\"%s\")\r", i, t[i].c_str()); bool neg = t[i][0] == '-';
		P += strf("L[%zu]=%s%s\r", i, neg && !g.chance(1, 2) ? "0-" : neg ? "-" : "", t[i].c_str() + neg);
		P += strf("READ R[%zu]\r", i); D += "DATA " + t[i] + "\r";
		P += strf("INPUT K:Q[%zu]=K\r", i); type_keys(t[i]);
	}
	P += "DONE=1\rEND\r" + D; int e = run_prog(P); c.describe(" " + show(P));
	if (e || get_num("DONE") != 4096) c.fail("ends with %s", err_name(e).c_str());
	for (size_t i = 0; i < t.size(); ++i){ const char* n[] = {"V", "L", "R", "Q"}; const char* h[] = {"VAL", "a literal", "READ", "INPUT"}; for (int k = 0; k < 4; ++k) if (arr(n[k], (int)i) != w[i]) c.fail("%s of %s gives %s, expected %s", h[k], t[i].c_str(), fxs(arr(n[k], (int)i)).c_str(), fxs(w[i]).c_str()); }
	c.label("texts read in four ways", t.size()); c.nontrivial(t.size() >= 3);
}
// VAL of any text: the number its start denotes
void starts(G& g, Case& c){
	std::vector<MStr> t; std::vector<fx> w; std::string d;
	for (int k = 0; k < 12; ++k){ std::string s; for (int n = g.range(0, 9); n > 0; --n) s += g.weighted({8, 2, 2, 2}) == 0 ? '0' + g.below(10) : g.chance(1, 2) ? '-' : g.chance(1, 2) ? '.' : *g.pick({" ", "A", ",", "+", "E", "&", "a", "F"}); if (g.chance(1, 4)) s = g.pick({"0", "00", "-", "-0", ".", "0."}) + s; if (!s.empty() && s[0] == '&') continue; fx v; if (model_val(mstr(s), v)) continue; t.push_back(mstr(s)); w.push_back(v); d += "[" + s + "] "; }
	if (t.empty()) return; c.text = "VAL of " + d; note_text(c.text); sh_new(64, 128, 1024); std::string P = "DIM V[12]\r"; for (size_t i = 0; i < t.size(); ++i) P += strf("V[%zu]=VAL(\"", i) + std::string(t[i].begin(), t[i].end()) + "\")\r"; int e = run_prog(P); if (e) c.fail("ends with %s", err_name(e).c_str());
	for (size_t i = 0; i < t.size(); ++i) if (arr("V", (int)i) != w[i]) c.fail("VAL(\"%s\") is %s, expected %s", plain(t[i]).c_str(), fxs(arr("V", (int)i)).c_str(), fxs(w[i]).c_str());
	c.label("any texts through VAL", t.size()); c.nontrivial(t.size() >= 3);
}
void based(G& g, Case& c){
	int32_t n[8]; int dg[8]; std::string P = "DIM N[8],H$[8],D$[8],A[8],B[8],X[8],Y[8]\r", d; for (int i = 0; i < 8; ++i){ n[i] = g.chance(1, 2) ? g.range(-524288, 524287) : g.chance(1, 2) ? (1 << g.below(19)) * (g.chance(1, 2) ? 1 : -1) + g.range(-1, 1) : g.range(-20, 300); n[i] = std::max(-524288, std::min(524287, n[i])); dg[i] = g.range(1, 5); d += strf("%d/%d ", n[i], dg[i]); }
	sh_new(64, 128, 1024); run_prog(P); int frac = g.chance(1, 2) ? g.range(0, 4095) : 0; c.text = strf("based %s fraction %d", d.c_str(), frac); note_text(c.text);
	for (int i = 0; i < 8; ++i) sh_set_anum("N", i, (fx)((uint32_t)n[i] * 4096u + (uint32_t)frac));
	std::string Q = "FOR I=0 TO 7:H$[I]=HEX$(N[I]):A[I]=VAL(\"&H\"+H$[I]):NEXT\r";
	for (int i = 0; i < 8; ++i){ uint32_t u = (uint32_t)n[i] & 0xfffff; std::string b; for (int k = 19; k >= 0; --k) if (!b.empty() || (u >> k & 1) || !k) b += '0' + (u >> k & 1); b = std::string(g.below(3), '0') + b; if (b.size() > 20) b = b.substr(b.size() - 20);
		Q += strf("B[%d]=VAL(\"&B%s\")\rX[%d]=&H%X\rY[%d]=&B%s\r", i, b.c_str(), i, u, i, b.c_str());
		bool ok = n[i] < (1LL << 4 * dg[i]) && n[i] >= -(1LL << (4 * dg[i] - 1)); if (ok) Q += strf("D$[%d]=HEX$(N[%d],%d)\r", i, i, dg[i]); }
	Q += "DONE=1\r"; int e = run_prog(Q); c.describe(" " + show(Q)); if (e || get_num("DONE") != 4096) c.fail("ends with %s", err_name(e).c_str());
	for (int i = 0; i < 8; ++i){ uint32_t u = (uint32_t)n[i] & 0xfffff; fx w = (fx)((uint32_t)n[i] * 4096u);
		if (sarr("H$", i) != gwiden(mstr(strf("%X", u)))) c.fail("HEX$(%d) is %s", n[i], showw(sarr("H$", i)).c_str());
		bool ok = n[i] < (1LL << 4 * dg[i]) && n[i] >= -(1LL << (4 * dg[i] - 1)); if (ok && sarr("D$", i) != gwiden(mstr(strf("%0*X", dg[i], u & (0xfffffu >> 4 * (5 - dg[i])))))) c.fail("HEX$(%d,%d) is %s", n[i], dg[i], showw(sarr("D$", i)).c_str());
		const char* nm[] = {"A", "B", "X", "Y"}; const char* h[] = {"VAL(\"&H\"+HEX$())", "VAL of a binary text", "hexadecimal literal", "binary literal"}; for (int k = 0; k < 4; ++k) if (arr(nm[k], i) != w) c.fail("%s of %d is %s", h[k], n[i], fxs(arr(nm[k], i)).c_str()); }
	{ // literals that need more than the 32 bits of a number
		std::string big; switch (g.below(4)){ case 0: big = strf("&H%X", 0x100000 + (g.chance(1, 2) ? g.below(64) << g.below(24) : g.below(0x7ff00000))); break; case 1: { big = "&B1"; for (int i = g.range(20, 40); i > 0; --i) big += '0' + g.below(2); break; } case 2: big = strf("%llu", 524288ull + (unsigned long long)(g.chance(1, 2) ? g.below(300) : g.bits()) * g.range(1, 9)); break; default: { big = g.chance(1, 2) ? "&H1" : "1"; for (int i = g.range(6, 30); i > 0; --i) big += '0' + g.below(10); } }
		if (big[0] != '&' && g.chance(1, 3)) big += ".5"; int e2 = run_prog("DONE=2:Z=7:Z=" + big + ":DONE=3\r"); c.describe(" " + big); if (e2 != ERR_OVERFLOW) c.fail("the literal %s ends with %s instead of an overflow", big.c_str(), err_name(e2).c_str()); }
	c.label("hexadecimal and binary notations", 8); c.nontrivial();
}
void chars(G& g, Case& c){
	uint8_t ch[24]; std::string d; uint32_t b = g.bits(); for (int i = 0; i < 24; ++i){ ch[i] = (uint8_t)(b + i * (g.chance(1, 2) ? 1 : 7)); d += strf("%d ", ch[i]); }
	c.text = "characters " + d; note_text(c.text);
	for (int i = 0; i < 256; ++i){ uint16_t w = sh_to_wide((uint8_t)i); if (w != golden_wide[i]) c.fail("code %d has the display form %04x, expected %04x", i, w, golden_wide[i]); if (sh_to_char(w) != i) c.fail("display form %04x of code %d converts back to %d", w, i, sh_to_char(w)); }
	// any display form: no character, or one that has this form (forms below 256 also stand for themselves)
	if (b % 16 == 0){ for (int w = 0; w < 65536; ++w){ int x = sh_to_char((uint16_t)w); if (x == -1) continue; if (x < 0 || x > 255 || (w < 256 ? x != w && golden_wide[x] != w : golden_wide[x] != w)) c.fail("display form %04x converts to %d", w, x); } c.label("all 65536 display forms"); }
	sh_new(64, 128, 1024); run_prog("DIM C[24],A[24],P[24],S$[24],L$[24],K$[24]\r"); for (int i = 0; i < 24; ++i) sh_set_anum("C", i, ch[i] << 12);
	int e = run_prog("CLS:FOR I=0 TO 23:S$[I]=CHR$(C[I]):A[I]=ASC(S$[I]):LOCATE I,I/2:PRINT S$[I];:P[I]=CHKCHR(I,FLOOR(I/2)):NEXT\rDONE=1\r"); if (e || get_num("DONE") != 4096) c.fail("ends with %s", err_name(e).c_str());
	for (int i = 0; i < 24; ++i){
		if (sarr("S$", i) != WStr(1, golden_wide[ch[i]])) c.fail("CHR$(%d) is %s", ch[i], showw(sarr("S$", i)).c_str());
		if (arr("A", i) != ch[i] << 12) c.fail("ASC(CHR$(%d)) is %s", ch[i], fxs(arr("A", i)).c_str());
		if (ch[i] != '\r' && ch[i] != '\n'){ uint16_t w = sh_con_char(i, i / 2); if (w != golden_wide[ch[i]]) c.fail("PRINT CHR$(%d) shows %04x", ch[i], w); if (arr("P", i) != ch[i] << 12) c.fail("CHKCHR of code %d gives %s", ch[i], fxs(arr("P", i)).c_str()); }
	}
	// keys come back through INKEY$ and LINPUT
	for (int i = 0; i < 24; ++i) if (ch[i]) sh_inkey(golden_wide[ch[i]]); // 0 means no key
	e = run_prog("FOR I=0 TO 23:K$[I]=INKEY$():NEXT\rDONE=2\r"); if (e) c.fail("INKEY$ ends with %s", err_name(e).c_str());
	int k = 0; for (int i = 0; i < 24; ++i){ WStr w; if (golden_wide[ch[i]]) w = WStr(1, golden_wide[ch[i]]); if (!golden_wide[ch[i]]) continue; if (sarr("K$", k++) != w) c.fail("the key of code %d reads as %s", ch[i], showw(sarr("K$", k - 1)).c_str()); }
	WStr typed; for (int i = 0; i < 24; ++i) if (ch[i] >= 32){ typed += golden_wide[ch[i]]; sh_inkey(golden_wide[ch[i]]); } sh_inkey('\r');
	e = run_prog("LINPUT L$\rDONE=3\r"); if (e) c.fail("LINPUT ends with %s", err_name(e).c_str());
	if (get_str("L$") != typed) c.fail("LINPUT gives %s, typed %s", showw(get_str("L$")).c_str(), showw(typed).c_str());
	c.label("characters converted", 24); c.nontrivial();
}
void run_case(G& g, Case& c){ switch (g.weighted({5, 4, 2, 2, 2})){ case 0: numbers(g, c); break; case 1: texts(g, c); break; case 2: based(g, c); break; case 4: starts(g, c); break; default: chars(g, c); } }
}
const Prop the_prop = {"P10", run_case, 120000, 6000000,
	"One case = 24 numbers (any 32-bit value, consecutive values, values around integers and powers of ten) printed, converted with STR$ and read back with VAL and as a literal; or 6 decimal texts read with VAL, as literal, by READ and by typing into INPUT; or 12 texts of digits, signs, points and other characters through VAL (the longest start that is a number counts); or 8 numbers through HEX$ and hexadecimal and binary notations; or 24 character codes through CHR$, ASC, PRINT, CHKCHR, INKEY$ and LINPUT together with the whole code table in both directions (and all 65536 display forms). Compared with exact rational arithmetic and a fixed code table. Non-trivial: nearly always (texts: at least 3; numbers: at least 4 that can be read back).", nullptr};

// P11: the text screen against a plain terminal model.
#include "model.h"
namespace {
struct Term {
	uint16_t t[24][32]; uint8_t c[24][32]; int x = 0, y = 0, col = 0, tab = 4;
	Term(){ memset(t, 0, sizeof t); memset(c, 0, sizeof c); }
	void view(){ while (y >= 24){ --y; memmove(t[0], t[1], sizeof t[0] * 23); memmove(c[0], c[1], sizeof c[0] * 23); memset(t[23], 0, sizeof t[23]); memset(c[23], col, sizeof c[23]); } }
	void put(uint16_t w){ view(); t[y][x] = w; c[y][x] = (uint8_t)col; if (++x == 32){ x = 0; ++y; } }
	void nl(){ x = 0; ++y; view(); }
	void puts(const WStr& s){ for (uint16_t w : s) put(w); }
	void comma(){ do put(golden_wide[' ']); while (x % tab); }
	void cls(){ memset(t, 0, sizeof t); memset(c, col, sizeof c); x = y = 0; }
};
struct Read { std::string what; fx want; };
std::string num_text(fx v, G&){ return num_lit(v); }
fx any(G& g){ fx v = gen_fx(g); return v <= -(524287 << 12) ? -(524287 << 12) : v; } // what a literal can say
void run_case(G& g, Case& c){
	sh_new(64, 128, 2048); run_prog("DIM R[500]\r");
	MStr sv[4]; for (int i = 0; i < 4; ++i){ sv[i] = gen_mstr(g); if (sv[i].empty()) sv[i] = mstr("x"); }
	fx nv[3]; for (fx& v : nv) v = gen_fx(g);
	static const char* sn[] = {"A$", "B$", "C$", "D$"}; static const char* nn[] = {"M", "N", "O"};
	std::string desc; for (int i = 0; i < 4; ++i){ sh_set_str(sn[i], sv[i].data(), (int)sv[i].size()); desc += strf("%s=%s ", sn[i], show8(sv[i]).c_str()); } for (int i = 0; i < 3; ++i){ sh_set_num(nn[i], nv[i]); desc += strf("%s=%s ", nn[i], fxs(nv[i]).c_str()); }
	Term T; std::vector<Read> reads; std::string P, all; int want = 0, bigs = 0, prints = 0, scrolls = 0; bool err = false;
	auto floor_ = [](fx v){ return v >> 12; };
	auto check = [&](){
		c.text = desc + show(all); note_text(c.text); int e = run_prog(P);
		if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str());
		int x, y; sh_con_pos(&x, &y); if (x != T.x || y != T.y) c.fail("the cursor is at %d,%d, expected %d,%d", x, y, T.x, T.y);
		for (int j = 0; j < 24; ++j) for (int i = 0; i < 32; ++i){ if (sh_con_char(i, j) != T.t[j][i]) c.fail("cell %d,%d shows %04x, expected %04x", i, j, sh_con_char(i, j), T.t[j][i]); if (sh_con_col(i, j) != T.c[j][i]) c.fail("cell %d,%d has color %02x, expected %02x", i, j, sh_con_col(i, j), T.c[j][i]); }
		for (size_t i = 0; i < reads.size(); ++i){ fx v = 0; sh_anum("R", (int)i, -1, &v); if (v != reads[i].want) c.fail("%s is %s, expected %s", reads[i].what.c_str(), fxs(v).c_str(), fxs(reads[i].want).c_str()); }
		P.clear(); want = 0; err = false;
	};
	for (int k = 0; g.item(k, 1, 60, 24, 25) && reads.size() < 480; ++k){
		std::string s; Term U = T; std::vector<Read> nr;
		switch (g.weighted({14, 6, 3, 1, 2, 5, 1})){
			case 0: { // PRINT
				s = g.chance(1, 4) ? "?" : "PRINT"; bool gap = true, can_join = false; int n = 0; char last = 0; std::string body;
				for (int i = 0; g.item(i, 0, 8, 3, 4); ++i){
					int sep = i == 0 ? (g.chance(1, 8) ? 1 : 0) : can_join && g.chance(1, 5) ? 0 : g.chance(1, 2) ? 1 : 2; // 1 comma 2 semicolon
					for (int r = sep ? (g.chance(1, 12) ? 2 : 1) : 0; r > 0; --r){ body += sep == 1 ? "," : ";"; last = sep == 1 ? ',' : ';'; if (sep == 1) U.comma(); }
					can_join = false; last = 0;
					switch (g.below(5)){
						case 0: { int q = g.below(4); body += sn[q]; U.puts(gwiden(sv[q])); if (sv[q].size() > 32) ++bigs; break; }
						case 1: { int q = g.below(3); body += (g.chance(1, 8) ? "+" : ""); if (body.size() && body.back() == '+') body.pop_back(); body += nn[q]; U.puts(gwiden(model_str(nv[q]))); break; }
						case 2: { MStr m; int l = g.range(1, 12); for (int z = 0; z < l; ++z) m += (uint8_t)("ABC xyz09'.,:;"[g.below(14)]); body += "\"" + std::string(m.begin(), m.end()) + "\""; U.puts(gwiden(m)); can_join = true; break; }
						case 3: { int q = g.below(4), l = g.range(1, 40); body += strf("LEFT$(%s,%d)", sn[q], l); MStr m = sv[q].substr(0, l); U.puts(gwiden(m)); break; }
						default: { int v = g.range(0, 524287); body += std::to_string(v); U.puts(gwiden(mstr(std::to_string(v)))); }
					}
					++n;
				}
				if (n == 0 && g.chance(1, 4)){ int r = g.range(1, 4); for (int i = 0; i < r; ++i){ bool cm = g.chance(2, 3); body += cm ? "," : ";"; last = cm ? ',' : ';'; if (cm) U.comma(); } }
				else if (n && g.chance(1, 3)){ int r = g.chance(1, 6) ? 2 : 1; for (int i = 0; i < r; ++i){ bool cm = g.chance(1, 2); body += cm ? "," : ";"; last = cm ? ',' : ';'; if (cm) U.comma(); } }
				if (!last) U.nl();
				(void)gap; s += (body.empty() || s == "?" ? "" : " ") + body; ++prints; if (U.y >= 23) ++scrolls; break; }
			case 1: { fx x = g.chance(4, 5) ? gen_int_fx(g, 0, 31) : gen_int_fx(g, -2, 33), y = g.chance(1, 3) ? gen_int_fx(g, 21, 23) : g.chance(4, 5) ? gen_int_fx(g, 0, 23) : gen_int_fx(g, -2, 25); if (g.chance(1, 10)) x = (fx)((uint32_t)x + g.below(4096)); if (g.chance(1, 30)) x = any(g); if (g.chance(1, 30)) y = any(g);
				s = "LOCATE " + num_text(x, g) + "," + num_text(y, g); int X = floor_(x), Y = floor_(y); if (X >= 0 && X < 32 && Y >= 0 && Y < 24) U.x = X, U.y = Y; else c.label("LOCATE out of range"); break; }
			case 2: { fx a = gen_int_fx(g, 0, 15), b = gen_int_fx(g, 0, 15); bool two = g.chance(1, 2); if (g.chance(1, 12)) a = g.chance(1, 2) ? -4096 : 16 << 12; if (g.chance(1, 12)) b = g.chance(1, 2) ? -4096 : g.chance(1, 2) ? 16 << 12 : any(g); if (g.chance(1, 8)) a = (fx)((uint32_t)a + g.below(4096));
				s = "COLOR " + num_text(a, g) + (two ? "," + num_text(b, g) : ""); int A = floor_(a), B = floor_(b); if (A < 0 || A > 15 || (two && (B < 0 || B > 15))) err = true; else if (two) U.col = A | B << 4; else U.col = (U.col & 0xf0) | A; break; }
			case 3: if (g.chance(1, 4)){ s = "ACLS"; U.col = 0; } else s = "CLS"; U.cls(); c.label("screen cleared"); break;
			case 4: { fx v = g.chance(2, 3) ? gen_int_fx(g, 1, 16) : g.chance(1, 2) ? gen_int_fx(g, -3, 40) : any(g); s = "TABSTEP=" + num_text(v, g); int t = floor_(v); U.tab = t < 1 ? 1 : t > 16 ? 16 : t; break; }
			case 5: { int w = g.below(3); int q = (int)reads.size(); if (w == 0){ s = strf("R[%d]=CSRX", q); nr.push_back({"CSRX", U.x << 12}); } else if (w == 1){ s = strf("R[%d]=CSRY", q); nr.push_back({"CSRY", U.y << 12}); } else { int x = g.chance(5, 6) ? g.range(0, 31) : g.pick({-1, 32, 1000, -524287}), y = g.chance(5, 6) ? g.range(0, 23) : g.pick({-1, 24, 25, 524287}); s = strf("R[%d]=CHKCHR(%s,%s)", q, num_lit((fx)((uint32_t)x << 12)).c_str(), num_lit((fx)((uint32_t)y << 12)).c_str());
				int r = -1; if (x >= 0 && x < 32 && y >= 0 && y < 24){ r = 0; uint16_t m = U.t[y][x]; if (m){ for (int i = 0; i < 256; ++i) if (golden_wide[i] == m) r = i; } } nr.push_back({strf("CHKCHR(%d,%d)", x, y), r << 12}); c.label("CHKCHR"); } break; }
			default: s = g.pick({"GCLS", "Z=1", "BGCLR", "SPCLR", "COLOR"}); if (s == "COLOR") s = "Z$=\"Q\""; break;
		}
		if (s.size() > 99){ c.label("discarded statement: too long"); err = false; continue; }
		if (!err) T = U;
		else { want = ERR_OUT_OF_RANGE; c.label("color out of range"); }
		reads.insert(reads.end(), nr.begin(), nr.end());
		P += s + "\r"; all += s + "\r"; if (err){ P += "PRINT \"NOT REACHED\"\r"; check(); } else if (g.chance(1, 12)) check();
	}
	c.text = desc + show(all); note_text(c.text); if (!P.empty()) check();
	if (scrolls) c.label("reached the last line"); if (bigs) c.label("text over several lines"); c.label("statements PRINT", prints); c.nontrivial(prints >= 2);
}
}
const Prop the_prop = {"P11", run_case, 120000, 5000000,
	"One case = a history of up to 60 statements PRINT (numbers, strings of up to 256 characters of any code, all separators, also omitted, leading, doubled and trailing), LOCATE, COLOR, TABSTEP, CLS, ACLS, CSRX, CSRY, CHKCHR and unrelated ones, in one or several programs, with values in and out of range. Cursor, error, read values, all 768 characters and colors are compared with a terminal model after each program. Non-trivial: at least two PRINT.", nullptr};

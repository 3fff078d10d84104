// Grammar-derived programs over (nearly) every statement, as token lists, so
// that the same program can be written down in many ways.
#pragma once
#include "model.h"
namespace {
struct Tok { std::string t; char k; };         // k: k keyword, n name, 0 number, s string literal, o operator, l label, ':' separator, d raw rest of a DATA line
typedef std::vector<Tok> Line;
struct Cmd { const char* name; const char* args; int w; };
// args: alternatives separated by | ; letters:
// x 0..255  y 0..191  c 0..15  C 0..255  p 0..3  l 0..1  b 0..63  q 0..99 sprite  h 0..511 char  f 0..1  t time  g number  G wide number  a angle
// S string  v number variable  w string variable  L label  H 64 hex digits  K colour text  R chr resource  O col resource  M mode 0..5  z width 8..64
// u array name (SORT) ; T tile  ( ) parentheses  D date text  m time text  F file resource name  A address
static const Cmd cmds[] = {
	{"CLS", "", 2}, {"LOCATE", "cy", 5}, {"COLOR", "c|cc", 4}, {"ACLS", "", 1}, {"VISIBLE", "ffffff", 1},
	{"GPAGE", "l|lpp", 3}, {"GCOLOR", "C", 3}, {"GPSET", "xy|xyC", 4}, {"GLINE", "xyxy|xyxyC", 4}, {"GBOX", "xyxy|xyxyC", 3}, {"GFILL", "xyxy|xyxyC", 3}, {"GCIRCLE", "xyc|xycC|xycCaa", 3},
	{"GPAINT", "xy|xyC|xyCC", 2}, {"GCOPY", "xyxyxyf|pxyxyxyf", 2}, {"GDRAWMD", "f", 2}, {"GCLS", "|C", 2}, {"GPRIO", "p", 1}, {"GPUTCHR", "xyRhcl", 2},
	{"BGPAGE", "l", 2}, {"BGPUT", "lbbT|lbbB|lbbhcff", 4}, {"BGFILL", "lbbbbT|lbbbbB|lbbbbhcff", 3}, {"BGCOPY", "lbbbbbb", 3}, {"BGCLR", "|l", 1}, {"BGCLIP", "bbbb", 1}, {"BGOFS", "lgg|lggt", 2}, {"BGREAD", "(lbb)v|(lbb)w|(lbb)vvvv", 3},
	{"SPPAGE", "l", 2}, {"SPSET", "qhcffp|qhcffpzz", 5}, {"SPCLR", "|q", 1}, {"SPCHR", "qh|qhcffp", 2}, {"SPOFS", "qxy|qxyt", 3}, {"SPANGLE", "qa|qat|qatf", 2}, {"SPSCALE", "qC|qCt", 2}, {"SPANIM", "qct|qctc", 2}, {"SPHOME", "qcc", 2}, {"SPSETV", "qMg", 2},
	{"SPREAD", "(q)vv|(q)vvv|(q)vvvv|(q)vvvvv", 2}, {"SPCOL", "qcczzf|qcczzfC", 2}, {"SPCOLVEC", "q|qgg", 1},
	{"COLSET", "OCK", 2}, {"COLREAD", "(OC)vvv", 2}, {"COLINIT", "|O|OC", 1}, {"CHRSET", "RCH", 2}, {"CHRREAD", "(RC)w", 2}, {"CHRINIT", "R", 1},
	{"TMREAD", "(m)vvv", 1}, {"DTREAD", "(D)vvv", 1}, {"SWAP", "vv|ww", 3}, {"CLEAR", "", 1}, {"BREPEAT", "ctt", 1}, {"KEY", "cS", 1}, {"PNLTYPE", "P", 1}, {"ICONSET", "ph", 1}, {"ICONCLR", "|p", 1}, {"PNLSTR", "cyS|cySc", 1},
	{"RESTORE", "L", 2}, {"TALK", "S", 1}, {"TALKSTOP", "", 1}, {"BGMSTOP", "|c", 1}, {"APPEND", "F", 1}, {"NEW", "", 1}, {"LIST", "", 1}, {"WAIT", "t", 1}, {"VSYNC", "t", 1},
	{"SORT", "czu|czuu|fcu", 3}, {"RSORT", "czu|fcuu", 2},
	// the rest is for P09 only (files, sound, memory, other programs)
	{"!", "", 0},
	{"SAVE", "F", 3}, {"LOAD", "F|Ff", 4}, {"DELETE", "F", 2}, {"RENAME", "FF", 2}, {"EXEC", "F", 1}, {"FILES", "|S", 1}, {"RUN", "", 1}, {"CONT", "", 1}, {"RECVFILE", "F", 1}, {"SENDFILE", "F", 1}, {"REBOOT", "", 1},
	{"BEEP", "|c|cg|cgC|cgCC", 2}, {"BGMPLAY", "c|cc|S|SS|ccC", 2}, {"BGMSET", "CS", 1}, {"BGMSETV", "ccg", 1}, {"BGMVOL", "c|cC", 1}, {"BGMCLEAR", "|C", 1}, {"BGMPRG", "CCCCCS|CCCCS", 1}, {"BGMSETD", "CL|CS", 1},
	{"POKE", "Ag", 3}, {"POKEH", "Ag", 2}, {"POKEB", "Ag", 3}, {"MEMCOPY", "AAg", 3}, {"MEMFILL", "AgA|Agg", 3}, {"INPUT", "v|w|vw|I", 2}, {"LINPUT", "w|J", 2},
	{"END", "", 1}, {"STOP", "", 1}, {"RETURN", "", 1}, {"NEXT", "|v", 2}, {"DIM", "!", 2},
};
struct Fn { const char* name; const char* args; int w; bool str; };
static const Fn fns[] = {
	{"ABS", "g", 3, false}, {"ASC", "S", 3, false}, {"ATAN", "g|gg", 1, false}, {"BGCHK", "l", 1, false}, {"CHKCHR", "cc", 2, false}, {"COS", "g", 1, false}, {"DEG", "g", 1, false}, {"EXP", "c", 1, false}, {"FLOOR", "g", 2, false}, {"GSPOIT", "xy", 3, false},
	{"INSTR", "SS|cSS", 2, false}, {"LEN", "S", 4, false}, {"LOG", "C", 1, false}, {"PI", "", 1, false}, {"POW", "cc", 1, false}, {"RAD", "g", 1, false}, {"SGN", "g", 2, false}, {"SIN", "g", 1, false}, {"SPCHK", "q", 1, false}, {"SPGETV", "qM", 2, false}, {"SPHIT", "q|qq", 2, false}, {"SPHITSP", "qq", 2, false},
	{"SQR", "C", 1, false}, {"TAN", "f", 1, false}, {"VAL", "V", 2, false}, {"ICONCHK", "", 1, false}, {"BTRIG", "", 1, false}, {"BUTTON", "|p", 1, false}, {"TALKCHK", "", 1, false},
	{"CHR$", "C", 3, true}, {"HEX$", "C|Cp", 2, true}, {"LEFT$", "Sc", 3, true}, {"MID$", "Scc", 3, true}, {"RIGHT$", "Sc", 2, true}, {"STR$", "g", 3, true}, {"SUBST$", "SccS", 2, true}, {"INKEY$", "", 1, true},
	{"!", "", 0, false},
	{"RND", "g", 2, false}, {"BGMCHK", "|c", 1, false}, {"BGMGETV", "cc", 1, false}, {"SPHITRC", "qxyzz|qxyzzgg", 1, false}, {"PEEK", "A", 2, false}, {"PEEKH", "A", 2, false}, {"PEEKB", "A", 2, false}, {"ADDR", "E", 3, false}, {"PTR$", "A", 2, true},
};
static const char* sysnames[] = {"TRUE","FALSE","CANCEL","RESULT","CSRX","CSRY","TABSTEP","SPHITNO","SPHITX","SPHITY","SPHITT","ICONPUSE","ICONPAGE","ICONPMAX","ERR","FUNCNO","TCHST","TCHX","TCHY","TCHTIME",
	"VERSION","MAINCNTL","MAINCNTH","FREEVAR","FREEMEM","KEYBOARD","ERL","MEMSAFE"};
enum { SYS_SAFE = 20, SYS_ALL = 28 };
static const char* pg_num[] = {"A","B","C","X1","LONG_NAME","Q9","ABCDEFGHIJKLMNOP"};
static const char* pg_str[] = {"A$","B$","S$","TEXT_1$"};
static const char* pg_loop[] = {"I","J","K","IDX"};

struct PG {
	G& g; bool wild; std::vector<Line> lines; int nlab = 0; std::set<std::string> used;
	int loops = 0, budget = 60; bool has_data = false, clear_ok = true, no_sort = false, edge = false; // edge: arguments near the ends of their ranges
	PG(G& gg, bool w) : g(gg), wild(w) {}
	void K(Line& l, const std::string& s){ l.push_back({s, 'k'}); used.insert(s); }
	void O(Line& l, const std::string& s){ l.push_back({s, 'o'}); }
	void N(Line& l, const std::string& s){ l.push_back({s, 'n'}); }
	void lit(Line& l, int lo, int hi){ int v = g.range(lo, hi); if (v < 0) O(l, "-"); l.push_back({std::to_string(v < 0 ? -v : v), '0'}); }
	void wildnum(Line& l){
		static const int b[] = {0, -1, 1, 255, 256, 257, 65535, 65536, 524287, -524287, 32767, 32768, 100, 64, 63, 192, 191, 512, 1023, 1024, 4096, -256, -32768, 2048, 99, 16, 15, 31, 32, 24, 23};
		int v = b[g.below(31)]; if (v < 0) O(l, "-"); l.push_back({std::to_string(v < 0 ? -v : v), '0'}); if (g.chance(1, 10)) l.back().t += ".5";
	}
	void var(Line& l, bool str, int d = 1){
		if (g.chance(2, 3) || d <= 0){ N(l, str ? pg_str[g.below(4)] : pg_num[g.below(7)]); return; }
		switch (g.below(3)){
			case 0: N(l, str ? "F$" : "D"); O(l, "["); idx(l, 5, d); O(l, "]"); break;
			case 1: N(l, str ? "G$" : "E"); O(l, g.chance(1, 3) ? "(" : "["); idx(l, 3, d); O(l, ","); idx(l, 4, d); O(l, l[l.size() - 4].t == "(" || false ? ")" : "]"); fixparen(l); break;
			default: N(l, str ? "A$" : "A"); O(l, "["); idx(l, 10, d); O(l, "]");
		}
	}
	void fixparen(Line& l){ // the closing bracket takes the form of its opening one
		int depth = 0; for (int i = (int)l.size() - 1; i >= 0; --i){ if (l[i].k != 'o') continue; if (l[i].t == ")" || l[i].t == "]") ++depth; else if (l[i].t == "(" || l[i].t == "["){ if (--depth == 0){ l.back().t = l[i].t == "(" ? ")" : "]"; return; } } }
	}
	void idx(Line& l, int n, int d){ if (wild && g.chance(1, 6)) wildnum(l); else if (g.chance(1, 5)) num(l, d - 1); else if (loops && g.chance(1, 4)) N(l, pg_loop[g.below(loops)]); else lit(l, 0, n - 1); }
	void num(Line& l, int d){
		switch (d <= 0 ? g.weighted({4, 4}) : g.weighted({5, 4, 4, 2, 4, 2, 1})){
			case 0: if (wild && g.chance(1, 4)) wildnum(l); else if (g.chance(1, 8)){ l.push_back({strf(g.chance(1, 2) ? "&H%X" : "&B1%d", g.below(2)), '0'}); } else { l.push_back({std::to_string(g.range(0, 20)), '0'}); if (g.chance(1, 5)) l.back().t += g.pick({".5", ".25", ".1", "."}); } break;
			case 1: var(l, false, d); break;
			case 2: { static const char* op[] = {"+", "-", "*", "/", "%", "AND", "OR", "XOR"}; num(l, d - 1); const char* o = op[g.weighted({6, 4, 3, 2, 2, 1, 1, 1})]; if (isalpha(o[0])) K(l, o); else O(l, o); num(l, d - 1); break; }
			case 3: { O(l, "("); if (g.chance(1, 3)) str_cmp(l, d - 1); else num(l, d - 1); O(l, ")"); break; }
			case 4: fn(l, d, false); break;
			case 5: { int k = g.below(3); if (k == 0) O(l, "-"); else if (k == 1) K(l, "NOT"); else O(l, "!"); num(l, d - 1); break; }
			default: K(l, sysnames[g.below(wild ? SYS_ALL : SYS_SAFE)]);
		}
	}
	void str_cmp(Line& l, int d){ if (g.chance(1, 2)){ str(l, d); O(l, cmp()); str(l, d); } else { num(l, d); O(l, cmp()); num(l, d); } }
	const char* cmp(){ static const char* c[] = {"==", "!=", "<", ">", "<=", ">="}; return c[g.below(6)]; }
	void slit(Line& l){ std::string s; int n = g.weighted({1, 3, 3, 2, 1}); for (int i = 0; i < n; ++i) s += "ABab01:'?,; @"[g.below(13)]; if (wild && g.chance(1, 8)) s = std::string(g.chance(1, 8) ? g.range(100, 255) : g.range(10, 40), 'x'); else if (!wild && g.chance(1, 60)) s = std::string(g.range(100, 255), 'k'); l.push_back({"\"" + s + "\"", 's'}); }
	void str(Line& l, int d){
		switch (d <= 0 ? g.weighted({4, 4}) : g.weighted({4, 4, 3, 4, 1})){
			case 0: slit(l); break;
			case 1: var(l, true, d); break;
			case 2: str(l, d - 1); if (g.chance(3, 4)){ O(l, "+"); str(l, d - 1); } else { O(l, "*"); lit(l, 0, 3); } break;
			case 3: fn(l, d, true); break;
			default: K(l, wild ? g.pick({"MEM$", "TIME$", "DATE$", "PRGNAME$", "PACKAGE$"}) : "MEM$");
		}
	}
	void fn(Line& l, int d, bool st){
		for (int t = 0; t < 40; ++t){
			size_t n = sizeof fns / sizeof *fns, lim = wild ? n : 0; if (!lim) while (fns[lim].name[0] != '!') ++lim;
			const Fn& f = fns[g.below(lim)]; if (f.name[0] == '!' || f.str != st) continue;
			K(l, f.name); std::string a = alt(f.args);
			if (a.empty()){ if (strcmp(f.name, "PI") || g.chance(1, 2)){ O(l, "("); O(l, ")"); } if (!strcmp(f.name, "INKEY$") || !strcmp(f.name, "TALKCHK")){ l.pop_back(); l.pop_back(); } return; }
			O(l, "("); args(l, a, d - 1); O(l, ")"); return;
		}
		if (st) slit(l); else lit(l, 0, 9);
	}
	std::string alt(const char* a){ std::vector<std::string> v(1); for (; *a; ++a) if (*a == '|') v.emplace_back(); else v.back() += *a; std::string r = v[g.below((u32_)v.size())]; if (wild && g.chance(1, 25) && !r.empty()){ if (g.chance(1, 2)) r.pop_back(); else r += "gSv"[g.below(3)]; } return r; }
	void args(Line& l, const std::string& a, int d){ bool sep = false; for (char c : a){ if (c == '('){ O(l, "("); sep = false; continue; } if (c == ')'){ O(l, ")"); sep = true; continue; } if (sep) O(l, ","); arg(l, c, d); sep = true; } }
	void rn(Line& l, int lo, int hi, int d){ if (edge && g.chance(1, 3)){ int k = g.below(7); if (k == 4) lit(l, 0, 40); else if (k == 5) wildnum(l); else { static const int D[] = {0, -1, 0, 1}; int v = k == 6 ? hi : (k < 2 ? lo : hi) + D[k]; if (k == 3 && g.chance(1, 3)) ++v; if (v < 0) O(l, "-"); l.push_back({std::to_string(v < 0 ? -v : v), '0'}); if (k == 6) l.back().t += g.pick({".5", ".9999"}); } return; } if (wild && g.chance(1, 8)){ if (g.chance(1, 20)) slit(l); else wildnum(l); } else if (g.chance(1, 6)) num(l, d); else if (!wild && g.chance(1, 25)) lit(l, lo - 2, hi + 2); else if (loops && g.chance(1, 8)) N(l, pg_loop[g.below(loops)]); else lit(l, lo, hi); }
	void sp(Line& l, std::string s){ if (wild && g.chance(1, 10)){ if (g.chance(1, 2)) str(l, 1); else { if (g.chance(1, 2)) s += (char)('0' + g.below(10)); else if (!s.empty()) s.pop_back(); l.push_back({"\"" + s + "\"", 's'}); } } else l.push_back({"\"" + s + "\"", 's'}); }
	void arg(Line& l, char c, int d){
		switch (c){
			case 'x': rn(l, 0, 255, d); break; case 'y': rn(l, 0, 191, d); break; case 'c': rn(l, 0, 15, d); break; case 'C': rn(l, 0, 255, d); break;
			case 'p': rn(l, 0, 3, d); break; case 'l': case 'f': rn(l, 0, 1, d); break; case 'b': rn(l, 0, 63, d); break; case 'q': rn(l, 0, g.chance(1, 2) ? 3 : 99, d); break; case 'h': rn(l, 0, g.chance(1, 2) ? 9 : 511, d); break;
			case 't': rn(l, 0, 12, d); break; case 'a': rn(l, -360, 720, d); break; case 'M': rn(l, 0, edge ? 7 : 5, d); break; case 'z': rn(l, 1, 32, d); break; case 'g': num(l, d); break; case 'G': wildnum(l); break; case 'T': rn(l, 0, 65535, d); break;
			case 'S': str(l, d); break; case 'v': var(l, false, d); break; case 'w': var(l, true, d); break; case 'L': l.push_back({label(), 'l'}); break;
			case 'H': { std::string s; for (int i = 0; i < 64; ++i) s += "0123456789ABCDEF"[g.below(16)]; sp(l, s); break; }
			case 'K': { std::string s; for (int i = 0; i < 6; ++i) s += "0123456789ABCDEF"[g.below(16)]; sp(l, s); break; }
			case 'R': { std::string s = g.pick({"BGU", "BGF", "BGD", "SPU", "SPS", "SPD"}); s += (char)('0' + g.below(s == "BGU" ? 4 : s == "SPU" ? 8 : 1)); if (g.chance(1, 3)) s += g.pick({"U", "L"}); sp(l, s); break; }
			case 'O': { std::string s = g.pick({"BG", "SP", "GRP"}); if (g.chance(1, 3)) s += g.pick({"U", "L"}); sp(l, s); break; }
			case 'B': { std::string s; for (int i = 0; i < 4; ++i) s += "0123456789ABCDEF"[g.below(16)]; sp(l, s); break; }
			case 'P': sp(l, g.pick({"OFF", "PNL", "KYA", "KYM", "KYK"})); break;
			case 'D': sp(l, strf("%04d/%02d/%02d", g.range(1990, 2030), g.range(0, 13), g.range(0, 31))); break;
			case 'm': sp(l, strf("%02d:%02d:%02d", g.range(0, 24), g.range(0, 60), g.range(0, 59))); break;
			case 'V': if (g.chance(1, 2)) sp(l, std::to_string(g.range(-50, 50))); else str(l, d); break;
			case 'u': N(l, g.pick({"D", "D", "F$", "A", "A$"})); break;
			case 'F': sp(l, std::string(g.pick({"", "PRG:", "MEM:", "GRP0:", "GRP3:", "CHR:", "BGU0:", "SPU7:", "COL0:", "COL2:", "SCR:", "BGF0U:", "SCU0L:", "XXX:", "TXT:", "SCU1:", "SPD0:", "BGD1:"})) + g.pick({"F1", "F2", "AB_C", "", "TOOLONGNAME", "../X", "a b", "F1:X"})); break;
			case 'A': switch (g.below(4)){ case 0: l.push_back({"&H2000000", '0'}); O(l, "+"); num(l, d); break; case 1: K(l, "ADDR"); O(l, "("); arg(l, 'E', d); O(l, ")"); if (g.chance(1, 3)){ O(l, "+"); lit(l, -8, 300); } break; case 2: wildnum(l); break; default: num(l, d); } break;
			case 'E': { std::string s = g.pick({"GRP", "COL", "CHR", "SCR", "MEM", "A", "D[0]", "A$", "E[1,2]", "GRP0", "BGU0", "XYZ", "D", "F$", "F$[2]"}); sp(l, s); break; }
			case 'I': slit(l); O(l, ";"); var(l, g.chance(1, 2), 0); break;
			case 'J': slit(l); O(l, ";"); var(l, true, 0); break;
			default: num(l, d);
		}
	}
	std::string label(){ if (wild && g.chance(1, 12)) return "@NOWHERE"; return nlab ? strf("@L%d", g.below(nlab)) : "@L0"; }
	void simple(Line& l, int d){ // one statement
		switch (g.weighted({7, 4, 6, 14, 2, 2, 1, wild ? 2 : 0})){
			case 0: var(l, false, d); O(l, "="); num(l, d); break;
			case 1: var(l, true, d); O(l, "="); str(l, d); break;
			case 2: { K(l, "PRINT"); int n = g.weighted({1, 4, 3, 2, 1}); for (int i = 0; i < n; ++i){ if (i && !g.chance(1, 8)) O(l, g.chance(1, 2) ? ";" : ","); else if (i && l.back().k != 's') O(l, ";"); if (g.chance(1, 2)) num(l, d); else str(l, d); } if (n && g.chance(1, 4)) O(l, g.chance(1, 2) ? ";" : ","); break; }
			case 3: {
				for (int t = 0; t < 100; ++t){
					size_t n = sizeof cmds / sizeof *cmds, lim = wild ? n : 0; if (!lim) while (cmds[lim].name[0] != '!') ++lim;
					const Cmd& c = cmds[g.below(lim)]; if (c.name[0] == '!' || g.below(5) >= (u32_)c.w) continue;
					if (!clear_ok && !strcmp(c.name, "CLEAR")) continue;
					K(l, c.name);
					if (!strcmp(c.name, "DIM")){ N(l, g.pick({"D", "E", "F$", "NEWARR", "Z$", "A"})); O(l, "["); arg(l, 'c', 1); if (g.chance(1, 3)){ O(l, ","); arg(l, 'c', 1); } O(l, "]"); break; }
					args(l, alt(c.args), d); break;
				} break; }
			case 4: K(l, g.chance(3, 4) ? "GOSUB" : "GOTO"); l.back().t == "GOSUB" ? l.push_back({g.chance(1, 2) ? "@SUB1" : "@SUB2", 'l'}) : l.push_back({wild ? label() : "@FINISH", 'l'}); break;
			case 5: if (has_data){ K(l, "READ"); var(l, g.chance(1, 3), d); if (g.chance(1, 3)){ O(l, ","); var(l, g.chance(1, 3), d); } break; } 
				// fallthrough
			case 6: { K(l, "ON"); num(l, d); K(l, "GOSUB"); l.push_back({"@SUB1", 'l'}); O(l, ","); l.push_back({"@SUB2", 'l'}); break; }
			default: K(l, sysnames[g.below(SYS_ALL)]); O(l, "="); num(l, d); break;
		}
	}
	void push(Line l){ if (!l.empty()) lines.push_back(l); }
	void line(int d){
		Line l; int n = g.weighted({5, 3, 2}) + 1;
		if (g.chance(1, 4)){ K(l, "IF"); if (g.chance(1, 2)) str_cmp(l, d); else num(l, d); K(l, "THEN"); simple(l, d); if (g.chance(1, 3)){ l.push_back({":", ':'}); simple(l, d); } if (g.chance(1, 2)){ K(l, "ELSE"); simple(l, d); } push(l); return; }
		for (int i = 0; i < n; ++i){ if (i) l.push_back({":", ':'}); simple(l, d); }
		push(l);
	}
	void block(int depth, int max){
		for (int i = 0; g.item(i, 1, max, 4, 5); ++i){
			if (--budget < 0) return;
			switch (g.weighted({8, depth < 3 ? 2 : 0, 1})){
				case 0: line(g.weighted({3, 3, 2})); break;
				case 1: { Line l; K(l, "FOR"); std::string v = pg_loop[loops]; N(l, v); O(l, "="); int a = g.range(0, 3); lit(l, a, a); K(l, "TO"); lit(l, a - 1, a + 3); if (g.chance(1, 4)){ K(l, "STEP"); lit(l, 1, 2); } push(l); ++loops; block(depth + 1, 4); --loops; Line e; K(e, "NEXT"); if (g.chance(1, 3)) N(e, v); push(e); break; }
				default: if (nlab < 6){ Line l; l.push_back({strf("@L%d", nlab++), 'l'}); push(l); } break;
			}
		}
	}
	void program(int max){
		Line l;
		if (g.chance(5, 6)){ K(l, "DIM"); N(l, "D"); O(l, "["); lit(l, 5, 12); O(l, "]"); O(l, ","); N(l, "E"); O(l, "["); lit(l, 3, 5); O(l, ","); lit(l, 4, 6); O(l, "]"); push(l); l.clear(); K(l, "DIM"); N(l, "F$"); O(l, "["); lit(l, 5, 9); O(l, "]"); l.push_back({":", ':'}); K(l, "DIM"); N(l, "G$"); O(l, "("); lit(l, 3, 4); O(l, ","); lit(l, 4, 4); O(l, ")"); push(l); }
		has_data = g.chance(1, 3); { Line x; x.push_back({"@L0", 'l'}); push(x); nlab = 1; }
		block(0, max);
		{ Line x; x.push_back({"@FINISH", 'l'}); push(x); Line e; K(e, "END"); push(e); }
		for (int k = 1; k <= 2; ++k){ Line x; x.push_back({strf("@SUB%d", k), 'l'}); push(x); Line b; N(b, "SUBS"); O(b, "="); N(b, "SUBS"); O(b, "+"); lit(b, k, k); push(b); if (g.chance(1, 2)){ Line c; K(c, "PRINT"); str(c, 1); push(c); } Line r; K(r, "RETURN"); push(r); }
		if (has_data) for (int i = 0; g.item(i, 1, 4, 1, 2); ++i){ Line x; x.push_back({"DATA", 'k'}); std::string r; int n = g.range(1, 5); for (int j = 0; j < n; ++j){ if (j) r += ","; r += g.pick({"1", "-2.5", "\"A B\"", "TXT", "&H1F", "0", ""}); } x.push_back({r, 'd'}); push(x); }
	}
};
// writes one line down: minimal blanks
bool wordy(const Tok& t){ return t.k == 'k' || t.k == 'n' || t.k == '0' || t.k == 'l'; }
bool needs_blank(const Tok& a, const Tok& b){
	if (b.k == 'd') return true;
	if (a.k == 'k' && a.t == "PRINT" && false) return true;
	if (!wordy(a) || !wordy(b) || b.k == 'l') return false;
	return !a.t.empty() && !b.t.empty();
}
std::string plain(const Line& l){ std::string o; for (size_t i = 0; i < l.size(); ++i){ if (i && needs_blank(l[i - 1], l[i])) o += ' '; o += l[i].t; } return o; }
}

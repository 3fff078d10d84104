// P24: touches of the lower screen against the keyboard's layout, key tables and press times; panel texts, icons and function keys.
#include "model.h"
#include "panelkeys.h"
#include <unistd.h>
#include <sys/stat.h>
extern "C" { void sh_press(int, int, int); int sh_pnl_char(int, int, int); int sh_pnl_col(int, int); void sh_pnl_mark(); int sh_pnl_image(int); const uint8_t* sh_pnl_layout(); }
void prop_process_init(){
	std::string d = strf("w%d", (int)getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) abort(); mkdir("resources", 0755);
	for (int i = 0; i < 2; ++i){ FILE* f = fopen(i ? "resources/pnlKEY.NSCR" : "resources/pnlPANEL.NSCR", "wb"); if (!f) abort(); for (int k = 0; k < 36; ++k) fputc(0xee, f); for (int k = 0; k < 32 * 24 * 2; ++k) fputc((k * 7 + i * 91 + k / 256) & 255, f); fclose(f); }
}
namespace {
enum { LEFT = 2, RIGHT = 3 };
// characters of the keys 0..68 (KYA, SHIFT, KYM, SHIFT, KYK, SHIFT with two each)
const char* const KB[6] = {
	"\0\0001234567890-+=\0$\"QWERTYUIOP@*()\t!ASDFGHJKL;:<>\0'ZXCVBNM,./%\r\0\0\0\0 \0\0\0",
	"\0\0\0\0#\0\0&\0^\\~\0\x7f|\0\0\0qwertyuiop`\0[]\t\0asdfghjkl\0\0{}\0\0zxcvbnm\0\0?_\r\0\0\0\0 \0\0\0",
	"\0\0\xF1\xF2\xF0\xF3\x0A\xE5\x1A\xE4\xE6\xE7\x10\x07\x14\0\x03\x96\x98\x91\x99\xEC\xEE\xEF\xED\x0E\x0F\x05\x06\x04\x0B\x1B\t\x95\x92\x93\x94\x15\x17\x16\xF4\xF6\xF7\xF5\xEB\xEA\xE8\0\xFF\x9A\x90\x9B\xFC\xFD\xFE\x97\x9C\x9D\x9E\x9F\r\0\0\0\0 \0\0\0",
	"\0\0\0\x80\0\0\0\xE1\0\xE0\xE2\xE3\x11\x08\0\0\0\0\xF8\x1E\xFA\x01\x02\x18\x19\x0C\x12\x13\0\0\xE9\0\t\0\x1D\0\x1C\0\x81\x82\x83\x84\x85\x86\x87\0\0\0\0\xF9\x1F\xFB\x88\x89\x8A\x8B\x8C\x8D\x8E\x8F\r\0\0\0\0 \0\0\0",
	"\0\0\xB1\xB2\xB3\xB4\xB5\xC5\xC6\xC7\xC8\xC9\x2D\x2B\x3D\0\xA0\xA5\xB6\xB7\xB8\xB9\xBA\xCA\xCB\xCC\xCD\xCE\xA2\xA3\xDD\xA1\t\xBB\xBC\xBD\xBE\xBF\xCF\xD0\xD1\xD2\xD3\xD4\xD5\xD6\xA4\0\xC0\xC1\xC2\xC3\xC4\xD7\xD8\xD9\xDA\xDB\xDC\xA6\r\0\0\0\0 \0\0\0",
	"\0 \0 \xA7\0\xA8\0\xA9\0\xAA\0\xAB\0\0 \0 \0 \0 \0 \xCA\xDF\xCB\xDF\xCC\xDF\0 \xAF\0\xB3\xDE\xB6\xDE\xB7\xDE\xB8\xDE\xB9\xDE\xBA\xDE\xCA\xDE\xCB\xDE\xCC\xDE\xCD\xDE\xCE\xDE\xCD\xDF\xCE\xDF\0 \0 \t\0\xBB\xDE\xBC\xDE\xBD\xDE\xBE\xDE\xBF\xDE\x31\0\x32\0\x33\0\x34\0\x35\0\xAC\0\xAD\0\xAE\0\0 \0 \xC0\xDE\xC1\xDE\xC2\xDE\xC3\xDE\xC4\xDE\x36\0\x37\0\x38\0\x39\0\x30\0\0 \0 \r\0\0 \0 \0 \0  \0\0 \0 \0 " };
const char* const TY[] = {"OFF", "PNL", "KYA", "KYM", "KYK"};
struct Frame { int b = 0; int t = 0, x = 0, y = 0; };
struct World { // the panel as the user sees it
	int type = 2, shift = 0, caps = 0, ins = 1; int cur = 0, n = 0; bool dead = false; int b = 0, bn[12] = {}; std::deque<uint16_t> q; uint64_t dropped = 0, typed = 0, hits = 0; bool brk = false; int64_t time = 0; WStr fk[5]; bool icon[4] = {}; int puse = 0, page = 0, pmax = 0; int tch[4] = {0, 0, 0, 0}; uint16_t text[24][32] = {}; uint8_t col[24][32] = {}; int image = 0; uint64_t pages = 0;
	int at(int x, int y) const { for (auto& r : RS) if (x >= r.x && x < r.x + r.w && y >= r.y && y < r.y + r.h) return (r.key == 80 || r.key == 81) && !puse ? 0 : r.key; return 0; }
	int hit() const { return cur && (n == 1 || (n > 30 && (n - 31) % 5 == 0)) ? cur : 0; }
	void key(uint16_t k){ ++typed; if (q.size() < 256) q.push_back(k); else ++dropped; }
	void refresh(){ if (type >= 2) image = 2 * (2 * (type - 2) + (shift ^ caps)); }
	void frame(const Frame& f){ b = f.b; for (int i = 0; i < 12; ++i) bn[i] = b >> i & 1 ? bn[i] + 1 : 0; tch[0] = f.t; if (f.t){ tch[1] = f.x; tch[2] = f.y; ++tch[3]; } else tch[3] = 0;
		if (!f.t){ cur = n = 0; dead = false; } else if (cur){ if (at(f.x, f.y) == cur) ++n; else { cur = 0; dead = true; } } else if (!dead && at(f.x, f.y)){ cur = at(f.x, f.y); n = 1; }
		int h = hit(); if (h) ++hits; if (h == 80 && page > 0) --page, ++pages; if (h == 81 && page < pmax) ++page, ++pages;
		if (h && type >= 2){ if (h == 1) brk = true; else if (h == 47) shift ^= 1; else if (h == 61) caps ^= 1; else if (h >= 62 && h <= 64) type = 2 + h - 62; else if (h == 66) ins ^= 1; else if (h >= 101 && h <= 105) for (uint16_t k : fk[h - 101]) key(k);
			else if (h <= 60 || h == 65){ int m = 2 * (type - 2) + (shift ^ caps); int i = m == 5 ? 2 * h : h; uint8_t ch = KB[m][i]; if (ch){ key(golden_wide[ch]); if (m == 5 && KB[m][i + 1]) key(golden_wide[(uint8_t)KB[m][i + 1]]); shift = 0; } }
			refresh(); }
		++time; }
	uint16_t take(){ if (q.empty()) return 0; uint16_t k = q.front(); q.pop_front(); return k; }
	void cls(){ memset(text, 0, sizeof text); memset(col, 0, sizeof col); }
};
std::vector<Frame> script; size_t at; bool over;
void on_sleep(){ Frame f; if (at < script.size()) f = script[at]; else { over = true; f.b = at & 1 ? 0 : 1 << 11; } ++at; sh_input(f.b); sh_touch(f.t, f.x, f.y); sh_press(f.t, f.x, f.y); sh_inc_time(1); }
struct NRead { std::string what; int idx; int want; }; struct SRead { std::string what; int idx; WStr want; };
void run_case(G& g, Case& c){
	sh_new(64, 600, 4096); run_prog("DIM R[400],S$[300]\r"); sh_pnl_mark(); sh_set_time(0); sh_test_mode(false); World W; script.clear(); at = 0; over = false; sh_on_sleep = on_sleep; std::string P, all; std::vector<NRead> nr; std::vector<SRead> sr; int nn = 0, ns = 0, want = 0; uint64_t reads = 0, lines = 0, edits = 0, slides = 0, pnl = 0;
	{ static const char* const d[] = {"FILES", "LOAD\"", "SAVE\"", "CONT", "RUN"}; for (int i = 0; i < 5; ++i) for (const char* p = d[i]; *p; ++p) W.fk[i] += golden_wide[(uint8_t)*p]; }
	auto script_text = [&]{ std::string s; for (size_t i = 0; i < script.size() && s.size() < 20000; ++i){ const Frame& f = script[i]; if (i && script[i - 1].t == f.t && script[i - 1].x == f.x && script[i - 1].y == f.y && script[i - 1].b == f.b) continue; s += strf("' from frame %zu:", i) + (f.t ? strf(" touch %d,%d (key %d)", f.x, f.y, W.at(f.x, f.y)) : std::string(" no touch")) + (f.b ? strf(" buttons %03x", f.b) : "") + "\n"; } return s; };
	auto push = [&](const Frame& f){ script.push_back(f); W.frame(f); };
	auto place = [&](Frame& f, int key){ f.t = 1; std::vector<const Rect*> v; for (auto& r : RS) if (r.key == key) v.push_back(&r); if (v.empty()){ f.x = g.below(256); f.y = g.below(192); return; } const Rect& r = *v[0]; f.x = r.x + (g.chance(1, 3) ? g.pick({0, r.w - 1}) : g.below(r.w)); f.y = r.y + (g.chance(1, 3) ? g.pick({0, r.h - 1}) : g.below(r.h)); };
	auto somekey = [&](bool esc){ for (;;){ int k; switch (g.weighted({8, 4, 3, 3, 3, 2, 2})){ case 0: k = g.range(2, 60); break; case 1: k = g.pick({47, 61, 47}); break; case 2: k = g.pick({62, 63, 64}); break; case 3: k = g.range(101, 105); break; case 4: k = 90 + g.below(4); break; case 5: k = g.pick({80, 81}); break; default: k = g.pick({65, 66, 67, 68, 70, 71, 72, 106, 1, 60, 15}); } if (k == 1 && !esc) continue; return k; } };
	auto setup_check = [&]{ // what is shown
		for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){ if (sh_pnl_char(0, x, y) != W.text[y][x]) c.fail("the panel shows character %x at %d,%d, expected %x", sh_pnl_char(0, x, y), x, y, W.text[y][x]); if (sh_pnl_col(x, y) != W.col[y][x]) c.fail("the panel's text has color %d at %d,%d, expected %d", sh_pnl_col(x, y), x, y, W.col[y][x]); }
		for (int k = 0; k < 5; ++k) for (int i = 0; i < 5; ++i){ uint16_t w = i == 4 ? golden_wide[(uint8_t)(W.fk[k].size() > 4 ? '.' : ' ')] : i < (int)W.fk[k].size() ? W.fk[k][i] : golden_wide[' ']; if (sh_pnl_char(1, 1 + 6 * k + i, 0) != w) c.fail("character %d of function key %d is shown as %x, expected %x", i, k + 1, sh_pnl_char(1, 1 + 6 * k + i, 0), w); }
		if (W.type >= 2) for (int i = 0; i < 2; ++i) if (sh_pnl_image(i) != W.image + i) c.fail("the keys shown are set %d, expected %d (%s shift %d caps %d)", sh_pnl_image(i), W.image + i, TY[W.type], W.shift, W.caps);
		const uint8_t* l = sh_pnl_layout(); for (int k = 0; k < 32 * 24 * 2; ++k){ uint8_t e = W.type == 0 ? 0 : (k * 7 + (W.type >= 2) * 91 + k / 256) & 255; if (l[k] != e) c.fail("byte %d of the panel's layout is %02x, expected %02x (%s)", k, l[k], e, TY[W.type]); } };
	auto check = [&]{ c.text = show(all) + script_text(); note_text(c.text); size_t at0 = script.size(); int e = run_prog(P); P.clear(); if (over) c.fail("waits for more than the %zu frames expected", at0); if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str()); if (at != script.size()) c.fail("went on after %zu frames, expected %zu", at, script.size());
		for (auto& r : nr){ fx v; sh_anum("R", r.idx, -1, &v); if (v != (fx)r.want << 12) c.fail("%s is %s, expected %d", r.what.c_str(), fxs(v).c_str(), r.want); } nr.clear();
		for (auto& r : sr){ uint16_t o[512]; int n = sh_astr("S", r.idx, -1, o); if (n < 0 || WStr(o, n) != r.want) c.fail("%s is %s, expected %s", r.what.c_str(), n < 0 ? "?" : showw(WStr(o, n)).c_str(), showw(r.want).c_str()); } sr.clear(); setup_check(); };
	auto wait_to = [&](size_t from){ return script.size() > from ? strf("WAIT %d", (int)(script.size() - from)) : std::string("Z=0"); };
	auto text = [&](int n, WStr& w){ std::string s; for (int i = 0; i < n; ++i){ int ch = g.chance(1, 10) ? g.pick({0x80, 0xb1, 0xff, 0xe0}) : g.chance(1, 4) ? g.range('0', '9') : g.range('A', 'Z'); w += golden_wide[ch]; s += (char)ch; } return "\"" + s + "\""; };
	for (int k = 0; g.item(k, 2, 45, 15, 16) && nn < 380 && ns < 280 && script.size() < 2500; ++k){
		std::string s; int err = 0; size_t from = script.size();
		switch (g.weighted({14, 6, 5, 2, 3, 3, 2, 2, 4, 4, 1, 4, 1})){
			case 0: { // a touch: down, held, perhaps moved, released
				Frame f; place(f, g.chance(1, 8) ? 0 : somekey(true)); int d = g.weighted({60, 40, 30, 1}); d = d == 0 ? 1 : d == 1 ? g.range(2, 8) : d == 2 ? g.range(28, 52) : g.range(250, 600); for (int i = 0; i < d && !W.brk; ++i) push(f);
				if (!W.brk && g.chance(1, 5)){ ++slides; for (int m = g.range(1, 3); m > 0 && !W.brk; --m){ int old = W.at(f.x, f.y); if (g.chance(1, 4)) place(f, old ? old : 2); else if (g.chance(1, 2)) place(f, 0); else { static const int DX[] = {1, -1, 8, -16}; f.x = std::min(255, std::max(0, f.x + DX[g.below(4)])); f.y = std::min(191, std::max(0, f.y + (int)g.below(3) - 1)); } for (int i = g.chance(1, 3) ? g.range(20, 40) : g.range(1, 4); i > 0 && !W.brk; --i) push(f); } }
				if (!W.brk && g.chance(3, 4)) for (int i = g.range(1, 3); i > 0; --i) push(Frame()); s = wait_to(from); if (W.brk) err = ERR_BREAK; break; }
			case 1: { s = strf("R[%d]=ICONCHK()", nn); int h = W.hit(); nr.push_back({"ICONCHK", nn++, h >= 90 && h < 94 && W.icon[h - 90] ? h - 90 : -1}); ++reads; if (W.type >= 2){ s += strf(":R[%d]=KEYBOARD:R[%d]=FUNCNO", nn, nn + 1); nr.push_back({"KEYBOARD", nn++, h >= 1 && h <= 69 ? h : 0}); nr.push_back({"FUNCNO", nn++, h >= 101 && h <= 105 ? h - 100 : 0}); } break; }
			case 2: { int n = g.chance(1, 3) ? 60 : g.range(1, 6); WStr w; for (int i = 0; i < n; ++i){ uint16_t q = W.take(); if (q) w += q; } s = strf("T$=\"\":FOR I=1 TO %d:T$=T$+INKEY$():NEXT:S$[%d]=T$", n, ns); sr.push_back({strf("INKEY$ %d times", n), ns++, w}); ++reads; break; }
			case 3: { static const char* N[] = {"TCHST", "TCHX", "TCHY", "TCHTIME"}; for (int i = 0; i < 4; ++i){ s += (i ? ":" : "") + strf("R[%d]=%s", nn, N[i]); nr.push_back({N[i], nn++, W.tch[i]}); } break; }
			case 4: { int t = g.weighted({1, 2, 2, 2, 2}); const char* n = TY[t]; if (g.chance(1, 10)){ n = g.pick({"", "kya", "KY", "KYAA", "ON", "OFF "}); err = ERR_INVALID_ARGUMENT_VALUE; } else { if (t != W.type) ++pnl; W.type = t; W.refresh(); } s = strf("PNLTYPE \"%s\"", n); break; }
			case 5: { int id = g.range(1, 5); if (g.chance(1, 12)){ id = g.pick({0, 6, -1, 256}); err = ERR_OUT_OF_RANGE; } WStr w; std::string t = text(g.weighted({8, 1}) ? g.range(10, 50) : g.range(0, 7), w); if (g.chance(1, 4)){ t += "+CHR$(13)"; w += golden_wide['\r']; } if (g.chance(1, 12)){ t = "(" + t + ")*5"; WStr u; for (int i = 0; i < 5; ++i) u += w; w = u; } if (w.size() > 250) break; s = strf("KEY %d,", id) + t; if (!err) W.fk[id - 1] = w; break; }
			case 6: { int i = g.below(4), ic = g.below(64); if (g.chance(1, 10)){ if (g.chance(1, 2)) i = g.pick({-1, 4, 256}); else ic = g.pick({-1, 65, 256, 1000}); err = ERR_OUT_OF_RANGE; } else W.icon[i] = true; s = strf("ICONSET %d,%d", i, ic); break; }
			case 7: { if (g.chance(1, 2)){ s = "ICONCLR"; for (bool& b : W.icon) b = false; } else { int i = g.below(4); if (g.chance(1, 10)){ i = g.pick({-1, 4, 260}); err = ERR_OUT_OF_RANGE; } else W.icon[i] = false; s = strf("ICONCLR %d", i); } break; }
			case 8: { switch (g.below(3)){ case 0: W.puse = g.chance(3, 4); s = strf("ICONPUSE=%d", W.puse ? g.pick({1, 5, -1}) : 0); break; case 1: W.pmax = g.range(0, 6); W.page = g.range(0, W.pmax); s = strf("ICONPMAX=%d:ICONPAGE=%d", W.pmax, W.page); break; default: s = strf("R[%d]=ICONPAGE", nn); nr.push_back({"ICONPAGE", nn++, W.page}); ++reads; } break; }
			case 9: { int x = g.below(32), y = g.below(24), col = 0; WStr w; std::string t = text(g.chance(1, 3) ? g.range(20, 45) : g.range(0, 8), w); std::string cs; bool silent = false; if (g.chance(2, 3)){ col = g.below(16); cs = strf(",%d", col); } if (g.chance(1, 8)){ int v = g.pick({-1, 32, 24, 100, 256}); if (g.chance(1, 2) && v != 24) x = v; else y = v; silent = true; } else if (g.chance(1, 10)){ cs = strf(",%d", g.pick({-1, 16, 256})); err = ERR_OUT_OF_RANGE; } s = strf("PNLSTR %d,%d,", x, y) + t + cs; if (s.size() > 95) { s = "Z=0"; err = 0; break; } if (!silent && !err) for (size_t i = 0; i < w.size() && x + (int)i < 32; ++i){ W.text[y][x + i] = w[i]; W.col[y][x + i] = col; } break; }
			case 10: if (g.chance(1, 4)){ s = "ACLS"; for (bool& b : W.icon) b = false; } else s = "CLS"; W.cls(); break;
			case 11: { // a line typed on the panel, corrected on it
				for (int i = 0; i < 2; ++i) push(Frame()); s = "WAIT 2:CLS\r"; W.cls(); WStr l; size_t x = 0; bool done = false, unsure = false, stopped = false; int shown = W.type; if (W.type < 2) ++pnl; W.type = 2; W.refresh();
				auto eat = [&]{ while (!done){ uint16_t q = W.take(); if (!q) break; if (q == '\r'){ done = true; break; } if (l.size() >= 32){ if (!W.ins) unsure = true; continue; } if (!W.ins && x < l.size()) l[x++] = q; else l.insert(l.begin() + x++, q); } };
				eat(); for (int st = 0; !done && !stopped; ++st){
					if (g.chance(1, 6)){ Frame f; f.b = 1 << g.pick({LEFT, RIGHT}); push(f); if (f.b >> LEFT & 1){ if (x) --x; } else if (x < l.size()) ++x; ++edits; push(Frame()); push(Frame()); continue; }
					Frame f; int w = g.weighted({10, 3, 2, 2, 1, 2, 2, 1}); int key = w == 0 ? somekey(false) : w == 1 ? 15 : w == 2 ? 67 : w == 3 ? 66 : w == 4 ? 1 : w == 5 ? 47 : w == 6 ? g.range(101, 105) : 60; if (st > 25) key = 60; place(f, key); int d = g.chance(1, 8) ? g.range(28, 50) : g.range(1, 3); if (st > 25) d = 1;
					for (int i = 0; i < d && !done && !stopped; ++i){ push(f); if (W.brk){ stopped = true; break; } eat(); int h = W.hit(); if (h == 15 && x > 0){ l.erase(--x, 1); ++edits; } if (h == 67 && x < l.size()){ l.erase(x, 1); ++edits; } }
					if (!done && !stopped) for (int i = 0; i < 2; ++i) push(Frame()); }
				W.type = shown; W.refresh(); ++lines; s += strf("LINPUT S$[%d]", ns); if (stopped) err = ERR_BREAK; else if (!unsure){ sr.push_back({strf("the line entered as number %d", ns), ns, l}); ++reads; } ++ns; break; }
			default: { Frame f; f.b = g.chance(1, 2) ? 1 << LEFT : 0; push(f); push(Frame()); s = "WAIT 2"; break; }
		}
		if (s.empty()) continue; if (s.size() > 98 && s.find('\r') == std::string::npos) c.fail("generator: %s", s.c_str());
		P += s + "\r"; all += s + "\r";
		if (err){ want = err; P += "PRINT \"NOT REACHED\"\r"; check(); want = 0; if (W.brk){ W.brk = false; push(Frame()); on_sleep(); } } else if (g.chance(1, 5)) check();
	}
	P += "Z=0\r"; check(); sh_on_sleep = nullptr; sh_test_mode(true);
	c.label("keys hit", W.hits); c.label("characters typed", W.typed); c.label("characters rejected by a full buffer", W.dropped); c.label("touches moved", slides); c.label("lines entered", lines); c.label("corrections", edits); c.label("frames", script.size()); c.label("reads", reads); c.label("panel changes", pnl); c.label("icon pages turned", W.pages); c.nontrivial(reads >= 2 && W.hits >= 2);
}
}
const Prop the_prop = {"P24", run_case, 150000, 1500000,
	"One case = a script of touches (places on and between the keys, held up to 52 frames, moved) played while a program of up to 45 statements changes the panel (PNLTYPE, PNLSTR, KEY, ICONSET, ICONCLR, ICONPUSE, ICONPAGE, CLS), waits, reads KEYBOARD, FUNCNO, ICONCHK, ICONPAGE, INKEY$ and the touch variables, and enters lines on the panel. All values read, texts, captions, layouts and key images shown are compared with a model of the keyboard. Non-trivial: at least two reads and two keys hit.", nullptr};

// P20: typed characters, INPUT/LINPUT lines and buttons against a queue, a line editor and press times.
#include "model.h"
namespace {
struct Frame { int b = 0; WStr keys; int x = -1; }; // x: where the cursor is during the entry of a line
enum { LEFT = 2, RIGHT = 3, A = 4, Y = 7, L = 8, R = 9, SELECT = 11 };
struct BT { int64_t n = 0, start = 0, rep = 0; bool hit() const { return rep > 0 && n > start ? (n - 1 - start) % (rep + 1) == 0 : n == 1; } };
struct World {
	std::deque<uint16_t> q; BT t[12]; int b = 0, old = 0; int64_t time = 0; uint64_t typed = 0, dropped = 0; bool brk = false;
	void frame(const Frame& f){ old = b; b = f.b; for (int i = 0; i < 12; ++i) if (b >> i & 1) ++t[i].n; else t[i].n = 0; if (t[SELECT].n == 1) brk = true; for (uint16_t k : f.keys){ ++typed; if (q.size() < 256) q.push_back(k); else ++dropped; } ++time; }
	int hits() const { int m = 0; for (int i = 0; i < 12; ++i) m |= t[i].hit() << i; return m; }
	uint16_t key(){ if (q.empty()) return 0; uint16_t k = q.front(); q.pop_front(); return k; }
};
std::vector<Frame> script; size_t at; bool over; std::string bad_cursor;
void on_sleep(){ Frame f; if (at < script.size()) f = script[at]; else { over = true; f.b = at & 1 ? 0 : 1 << SELECT; } if (f.x >= 0 && bad_cursor.empty()){ if (!sh_con_cursor()) bad_cursor = strf("no cursor is shown while a line is entered in frame %zu", at); int x, y; sh_con_pos(&x, &y); if (x != f.x) bad_cursor = strf("the cursor is in column %d in frame %zu, expected %d", x, at, f.x); } ++at; sh_input(f.b); for (uint16_t k : f.keys) sh_inkey(k); sh_inc_time(1); }
struct NRead { std::string what; int idx; fx want; }; struct SRead { std::string what; int idx; WStr want; };
// a number: a minus sign at most in front, digits with at most one point, blanks behind it
fx numval(MStr t, bool& good, bool& odd){
	while (!t.empty() && t.back() == ' ') t.pop_back();
	if (t.empty()){ good = false; return 0; } if (t[0] == ' '){ odd = true; return 0; }
	bool neg = t[0] == '-'; int dots = 0, digits = 0; __int128 v = 0, m = 1;
	for (size_t i = neg; i < t.size(); ++i){ if (t[i] == '.') ++dots; else if (t[i] >= '0' && t[i] <= '9'){ ++digits; v = v * 10 + (t[i] - '0'); if (dots) m *= 10; } else good = false; }
	if (dots > 1 || !digits) good = false; if (!good) return 0;
	v = v * 4096 / m; if (neg) v = -v; if (v > INT32_MAX || v < INT32_MIN) good = false; return good ? (fx)v : 0;
}
// characters without an 8-bit form do not survive every operation on strings (0xff takes their place)
const uint16_t wide_keys[] = {0x3042, 0x20ac, 0x4e00, 0x1234, 0x2603, 0xff9f, 0x3400, 0xe0ff};
bool same_text(const WStr& a, const WStr& b, bool exact){ if (exact || a.size() != b.size()) return a == b; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i] && !(a[i] == 0xff && std::find(wide_keys, wide_keys + 8, b[i]) != wide_keys + 8)) return false; return true; }
bool plain(uint16_t k){ return k >= 32 && k != golden_wide[',']; }
void run_case(G& g, Case& c){
	sh_new(64, 600, 4096); run_prog("DIM R[300],S$[300]\r"); sh_set_time(0); sh_test_mode(false); World W; std::string P, all; std::vector<NRead> nr; std::vector<SRead> sr; script.clear(); at = 0; over = false; bad_cursor.clear(); sh_on_sleep = on_sleep; int nn = 0, ns = 0, want = 0, reads = 0, lines = 0, redos = 0; uint64_t edits = 0;
	int pool[3]; for (int& p : pool) p = g.weighted({6, 1}) ? SELECT - 1 : g.below(11); bool busy = g.chance(1, 3);
	auto ch = [&](bool com){ for (;;){ uint16_t k; switch (g.weighted({12, 6, 4, 2, 1})){ case 0: k = golden_wide['A' + g.below(26)]; break; case 1: k = golden_wide['0' + g.below(10)]; break; case 2: k = golden_wide[g.range(32, 255)]; break; case 4: k = wide_keys[g.below(8)]; break; default: k = golden_wide['a' + g.below(26)]; } if (plain(k) || (com && k == golden_wide[','])) return k; } };
	auto script_text = [&]{ std::string s; for (size_t i = 0; i < script.size() && i < 600; ++i) if (script[i].b || !script[i].keys.empty()){ s += strf("frame %zu: buttons %03x", i, script[i].b); if (!script[i].keys.empty()) s += " keys " + showw(script[i].keys); s += "\n"; } return s; };
	int prev_b = 0;
	auto pass = [&](bool quiet, bool keys){ Frame f; if (!quiet) for (int i = 0; i < 3; ++i){ bool on = prev_b >> pool[i] & 1; if (g.chance(1, busy ? 2 : 5)) on = !on; if (on) f.b |= 1 << pool[i]; } prev_b = f.b;
		if (keys && g.chance(1, 4)){ int n = g.weighted({6, 3, 1}); n = n == 0 ? 1 : n == 1 ? g.range(2, 8) : g.range(20, 300); for (int i = 0; i < n; ++i) f.keys += g.chance(1, 16) ? (uint16_t)'\r' : ch(true); }
		script.push_back(f); W.frame(f); return f; };
	auto check = [&]{ c.text = show(all) + script_text(); note_text(c.text); size_t at0 = script.size(); int e = run_prog(P); P.clear(); if (!bad_cursor.empty()) c.fail("%s", bad_cursor.c_str()); if (over) c.fail("waits for more than the %zu frames expected", at0); if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str());
		if (at != script.size()) c.fail("went on after %zu frames, expected %zu", at, script.size()); if (sh_time() != W.time) c.fail("the time is %lld, expected %lld", (long long)sh_time(), (long long)W.time);
		for (auto& r : nr){ fx v; sh_anum("R", r.idx, -1, &v); if (v != r.want) c.fail("%s is %s, expected %s", r.what.c_str(), fxs(v).c_str(), fxs(r.want).c_str()); } nr.clear();
		for (auto& r : sr){ uint16_t o[512]; int n = sh_astr("S", r.idx, -1, o); if (n < 0 || !same_text(WStr(o, n), r.want, r.what[0] == 'L' || r.what[0] == 'v' || r.what.compare(0, 13, "INKEY$ number") == 0 && r.want.size() < 2)) c.fail("%s is %s, expected %s", r.what.c_str(), n < 0 ? "?" : showw(WStr(o, n)).c_str(), showw(r.want).c_str()); } sr.clear(); };
	auto take = [&]{ WStr w; uint16_t k = W.key(); if (k) w += k; return w; };
	// the entry of one line; false: stopped by SELECT. keys typed ahead are used first
	auto line = [&](WStr& out, bool stop, std::function<WStr()> idea){ WStr l; size_t x = 0; int64_t done = -1; WStr plan = idea(); size_t pi = 0; int waits = 0; std::vector<bool> ended;
		for (;;){ uint16_t k = W.key(); bool enterA = false;
			if (!k){ Frame f; ++waits; bool fin = pi >= plan.size(); int act = g.weighted({8, 3, fin && !stop ? 30 : 0, fin && stop ? 30 : 0, 2});
				if (act == 0 && !fin){ int n = 1 + (g.chance(1, 2) ? g.below(plan.size() - pi) : 0); f.keys = plan.substr(pi, n); pi += n; if (pi >= plan.size() && !stop && g.chance(1, 3)){ f.keys += '\r'; if (g.chance(1, 3)) for (int i = g.range(1, 5); i > 0; --i) f.keys += ch(true); } }
				if (act == 2){ if (g.chance(1, 2)) f.b |= 1 << A; else { f.keys += '\r'; if (g.chance(1, 3)) for (int i = g.range(1, 5); i > 0; --i) f.keys += ch(true); } }
				if (act == 3) f.b |= 1 << SELECT;
				if (!(f.b >> A & 1)){ if (act == 1 || g.chance(1, 12)){ f.b |= 1 << g.pick({LEFT, RIGHT, Y}); } else if (g.chance(1, 30)) f.b |= 1 << g.pick({L, R}); else if (g.chance(1, 3)) f.b |= prev_b & (1 << LEFT | 1 << RIGHT | 1 << Y); int lr = (f.b ^ prev_b) & (1 << L | 1 << R); if (lr) f.b &= ~(1 << LEFT | 1 << RIGHT | 1 << Y); }
				prev_b = f.b; f.x = std::min<int>(x, 31); script.push_back(f); W.frame(f); if (W.brk) return false; if (W.time > 4000) c.fail("generator: endless line"); enterA = W.t[A].n == 1; if (!f.keys.empty() && (f.b & (1 << LEFT | 1 << RIGHT | 1 << Y))) c.label("key and button in one frame"); }
			if (W.time != done){ done = W.time; if ((W.b ^ W.old) & (1 << L | 1 << R)); else if (W.t[Y].hit()){ if (x > 0){ l.erase(--x, 1); ++edits; } } else if (W.t[LEFT].hit()){ if (x){ --x; ++edits; } } else if (W.t[RIGHT].hit()){ if (x < l.size()){ ++x; ++edits; } } }
			if (k == '\r') break; if (k && l.size() < 32) l.insert(l.begin() + x++, k); if (enterA) break; }
		out = l; return true; };
	int color = 0; WStr shown; bool look = false, redone = false; int pcol = 0; std::string ptext; auto prep = [&]{ // a clear screen, no buttons that edit or enter
		std::string s = "WAIT 1:CLS\r"; pcol = 0; redone = false; ptext.clear(); if (g.chance(1, 4)){ s += strf("FOR I=0 TO %d:LOCATE 0,I:?\"%s\"*4;:NEXT\r", g.range(1, 23), g.pick({"AB,CDEFG", "1,2,3,4,", "12345678"})); c.label("lines entered over old text"); } prev_b = 0; script.push_back(Frame()); W.frame(Frame()); if (g.chance(1, 2)){ pcol = g.below(32); s += strf("LOCATE %d,%d\r", pcol, g.below(24)); } if (g.chance(1, 3)){ color = g.below(256); s += strf("COLOR %d,%d\r", color & 15, color >> 4); } return s; };
	auto prompt = [&]{ std::string s; if (g.chance(1, 2)) return s; s = "\""; for (int n = g.weighted({3, 1}) ? g.range(28, 36) : g.range(0, 12); n > 0; --n) s += (char)g.range('a', 'z'); ptext = s.substr(1); return s + "\";"; };
	for (int k = 0; g.item(k, 1, 40, 15, 16) && nn < 280 && ns < 280 && script.size() < 1500; ++k){
		std::string s; int err = 0; look = false;
		switch (g.weighted({8, 5, 4, 5, 6, 3, 3, 1, 2})){
			case 0: { int n = g.weighted({80, 40, 20, 1}); bool hold = n == 3; n = n == 0 ? 1 : n == 1 ? g.range(2, 6) : n == 2 ? g.range(10, 40) : g.range(230, 600); s = strf("%s %d", g.pick({"WAIT", "VSYNC"}), n); for (int i = 0; i < n; ++i){ if (hold && i > 3 && i < n - 3){ Frame f; f.b = prev_b; script.push_back(f); W.frame(f); } else pass(false, true); } if (hold) c.label("long holds"); break; }
			case 1: { int m = g.below(4); fx v = m << 12; if (g.chance(1, 8)) v += g.below(4096); int w = m == 0 ? W.b : m == 1 ? W.hits() : m == 2 ? W.b & ~W.old : ~W.b & W.old; s = m == 0 && g.chance(1, 2) ? "BUTTON()" : "BUTTON(" + num_lit(v) + ")"; if (g.chance(1, 20)){ s = strf("BUTTON(%d)", g.pick({4, -1, 5, 256, 524287, -2})); err = ERR_INVALID_ARGUMENT_VALUE; s = "Z=" + s; } else { nr.push_back({s, nn, w << 12}); s = strf("R[%d]=", nn++) + s; ++reads; } break; }
			case 2: s = "BTRIG()"; nr.push_back({s, nn, W.hits() << 12}); s = strf("R[%d]=", nn++) + s; ++reads; break;
			case 3: { WStr w = take(); s = strf("S$[%d]=INKEY$()", ns); if (g.chance(1, 4)){ w += take(); s += "+INKEY$()"; } sr.push_back({strf(s.find('+') == std::string::npos ? "INKEY$ number %d" : "INKEY$ pair %d", ns), ns, w}); ++ns; ++reads; break; }
			case 4: { int n = g.weighted({2, 1}) ? g.range(100, 256) : g.range(1, 12); s = strf("T$=\"\":FOR I=1 TO %d:T$=T$+INKEY$():NEXT:S$[%d]=T$", n, ns); WStr w; for (int i = 0; i < n; ++i) w += take(); sr.push_back({strf("INKEY$ %d times", n), ns++, w}); ++reads; break; }
			case 5: { int id = g.chance(1, 8) ? 12 : g.chance(2, 3) ? pool[g.below(3)] : g.pick({LEFT, RIGHT, Y, A, 5}); fx st = gen_int_fx(g, 0, g.chance(1, 2) ? 5 : g.chance(1, 8) ? 600 : 40), rp = gen_int_fx(g, 0, g.chance(1, 2) ? 3 : 20); if (st < 0) st = 0; if (rp < 0) rp = 0; if (g.chance(1, 10)){ s = strf("BREPEAT %d,%d,%d", g.pick({13, -1, 256, 12 + 1}), 3, 4); err = ERR_OUT_OF_RANGE; break; }
				if (g.chance(1, 4)){ s = strf("BREPEAT %d", id); if (id < 12) W.t[id].start = W.t[id].rep = 0; } else { s = strf("BREPEAT %d,", id) + num_lit(st) + "," + num_lit(rp); if (id < 12) W.t[id].start = st >> 12, W.t[id].rep = rp >> 12; } break; }
			case 6: { // LINPUT
				s = prep(); WStr l; bool stop = g.chance(1, 12); bool ok = line(l, stop, [&]{ WStr p; for (int n = g.weighted({6, 1}) ? g.range(25, 45) : g.range(0, 12); n > 0; --n) p += ch(true); return p; }); s += "LINPUT " + prompt() + strf("S$[%d]", ns); ++lines; if (!ok){ err = ERR_BREAK; sr.push_back({"the variable of a stopped LINPUT", ns++, WStr()}); } else { sr.push_back({strf("LINPUT number %d", ns), ns, l}); ++ns; ++reads; look = true; shown = l; } break; }
			case 7: { // stopped while waiting
				int n = g.range(2, 20), m = g.range(1, n); s = strf("%s %d", g.pick({"WAIT", "VSYNC"}), n); for (int i = 1; i < m; ++i) pass(false, true); Frame f; f.b = prev_b = 1 << SELECT; if (W.b >> SELECT & 1){ s = "Z=0"; break; } if (g.chance(1, 2)) f.keys += ch(true); script.push_back(f); W.frame(f); err = ERR_BREAK; break; }
			default: { // INPUT with several variables
				s = prep(); int nv = g.weighted({4, 3, 2}) + 1; std::string types; for (int i = 0; i < nv; ++i) types += g.chance(1, 2) ? 's' : 'n'; bool stop = g.chance(1, 15), ok; std::vector<WStr> val; std::vector<fx> num; WStr l;
				for (int tries = 0;; ++tries){ ok = line(l, stop, [&]{ WStr p; int bad = tries < 4 && g.chance(1, 3) ? 1 + g.below(3) : 0; int m = bad == 1 ? g.range(1, 4) : nv; for (int i = 0; i < m; ++i){ if (i) p += golden_wide[',']; if (types[i < nv ? i : 0] == 'n'){ if (bad == 2) continue; std::string t = g.chance(1, 4) ? strf("%d.%s", g.range(0, 999), g.pick({"5", "25", "75", "125"})) : strf("%d", g.range(0, 99999)); if (g.chance(1, 4)) t = "-" + t; if (g.chance(1, 6)) t = g.pick({"524287.9997", "524288", "1-2", "1.2.3", "--5", "99999999999", "-", ".", "7.", ".5", "-.25", "1048577", "4294967297", "-524287.5", "-524289", "5-", "00012", "0.0002441406249", "12.", "1 2", "-524288", "1048576"}); if (g.chance(1, 8)) t += std::string(g.range(1, 3), ' '); for (char q : t) p += golden_wide[(uint8_t)q]; if (bad == 3) p += golden_wide['A' + g.below(26)]; } else for (int n = g.range(0, 6); n > 0; --n) p += ch(false); } return p; });
					if (!ok) break; ++lines;
					// how the line reads
					val.assign(1, WStr()); for (uint16_t w : l) if (w == golden_wide[',']) val.push_back(WStr()); else val.back() += w; bool good = (int)val.size() == nv; num.assign(nv, 0); bool odd = false;
					for (int i = 0; good && i < nv; ++i) if (types[i] == 'n'){ MStr t; for (uint16_t w : val[i]){ int q = -1; for (int z = 32; z < 256; ++z) if (golden_wide[z] == w) q = z; t += (uint8_t)(q < 0 ? 255 : q); } num[i] = numval(t, good, odd); if (odd) break; }
					if (odd && good){ ok = false; c.label("discarded: line edited into an unusual number"); s.clear(); break; }
					if (good) break; ++redos; redone = true; prev_b = W.b & ~(1 << A); // the next line starts with the buttons of this frame
					if (tries > 30){ ok = false; c.label("discarded: too many lines typed ahead"); s.clear(); break; }
					if (!(W.q.empty())) continue; }
				if (s.empty()) { c.text = show(all) + script_text(); c.nontrivial(false); sh_on_sleep = nullptr; sh_test_mode(true); return; }
				s += "INPUT " + prompt(); std::string tail; for (int i = 0; i < nv; ++i){ if (i) s += ","; if (types[i] == 'n'){ s += strf("R[%d]", nn); nr.push_back({strf("value %d of INPUT", i + 1), nn++, ok ? num[i] : 0}); } else { s += strf("S$[%d]", ns); sr.push_back({strf("value %d of INPUT", i + 1), ns++, ok ? val[i] : WStr()}); } }
				if (!ok){ err = ERR_BREAK; for (int i = 0; i < nv; ++i) if (types[i] == 'n') nr.pop_back(); else sr.pop_back(); } else { ++reads; look = true; shown = l; } break; }
		}
		if (s.size() > 98 && s.find('\r') == std::string::npos){ c.label("discarded statement: too long"); continue; }
		P += s + "\r"; all += s + "\r"; if (W.brk){ W.brk = false; }
		if (err){ want = err; P += "PRINT \"NOT REACHED\"\r"; check(); want = 0; if (err == ERR_BREAK){ script.push_back(Frame()); W.frame(Frame()); prev_b = 0; on_sleep(); } } else if (look && g.chance(1, 2)){ // the line that was entered is on the screen
			check(); c.label("entered lines looked at"); int x, y; sh_con_pos(&x, &y); if (x || !y) c.fail("the cursor is at %d,%d after a line was entered", x, y); for (int i = 0; i < 32; ++i){ int want_c = i < (int)shown.size() ? shown[i] : 0; if (sh_con_char(i, y - 1) != want_c) c.fail("column %d of the entered line shows %04x, expected %04x", i, sh_con_char(i, y - 1), want_c); if (want_c && sh_con_col(i, y - 1) != color) c.fail("column %d of the entered line has colors %02x, expected %02x", i, sh_con_col(i, y - 1), color); }
			if (sh_con_cursor()) c.fail("the cursor is still shown after a line was entered");
			auto row = [&](int ry, int x0, const std::string& t){ for (size_t i = 0; i < t.size(); ++i) if (sh_con_char(x0 + i, ry) != golden_wide[(uint8_t)t[i]]) c.fail("row %d shows %04x in column %d, expected \"%s\" from column %d", ry, sh_con_char(x0 + i, ry), (int)(x0 + i), t.c_str(), x0); };
			if (redone) pcol = 0; if (pcol + ptext.size() + 1 <= 32 && y >= 2){ row(y - 2, pcol, ptext + "?"); c.label("prompts looked at"); if (redone){ if (y < 3) c.fail("no room for the second prompt"); row(y - 3, 0, "?Redo from start"); c.label("second prompts looked at"); } }
		} else if (g.chance(1, 8)) check();
	}
	{ int n = (int)W.q.size() + 1; WStr w, w2; for (int i = 0; i < n; ++i){ WStr t = take(); (i < 200 ? w : w2) += t; } std::string s = strf("T$=\"\":U$=\"\":FOR I=1 TO %d:IF I<201 THEN T$=T$+INKEY$() ELSE U$=U$+INKEY$()\rNEXT\rS$[298]=T$:S$[299]=U$\r", n); P += s; all += s; sr.push_back({"the remaining keys", 298, w}); sr.push_back({"the remaining keys from 200", 299, w2}); check(); }
	sh_on_sleep = nullptr; sh_test_mode(true);
	c.label("keys typed", W.typed); c.label("keys rejected by a full buffer", W.dropped); c.label("lines entered", lines); c.label("lines entered again", redos); c.label("editing steps", edits); c.label("frames", script.size()); c.label("reads", reads); c.nontrivial(reads >= 2 && (W.typed > 0 || script.size() > 3));
}
}
const Prop the_prop = {"P20", run_case, 200000, 2000000,
	"One case = a script of frames (buttons held, keys typed, also more than the buffer holds) played while a program of up to 40 statements WAIT, VSYNC, BUTTON, BTRIG, BREPEAT, INKEY$, LINPUT and INPUT runs; lines are typed ahead or while waiting, edited with LEFT, RIGHT and Y, ended with the return key or A, stopped with SELECT, entered again when malformed. Every value, the number of frames waited and the keys left over are compared with a queue, a line editor and the press times. Non-trivial: at least two reads and a key or four frames.", nullptr};

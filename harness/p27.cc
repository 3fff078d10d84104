// P27: what the window version makes of keyboard, mouse, text, the configuration and an input file, against the
// same program driven directly with the input that those stand for.
#include "model.h"
#include <unistd.h>
#include <sys/stat.h>
#include <filesystem>
extern "C" { int p27_run(const char*, const char*); void p27_frames(int); void p27_set(int, int, int, int, int); void p27_key(int); void p27_event(int, unsigned); int p27_rate(); extern long p27_joins; void p27_new(); void p27_free(); int p27_launch(const char*); void p27_close(); void p27_press(int, int, int); void p27_steps(); void p27_script(int); void p27_shown(int); void sh_digest(uint64_t*); }
namespace {
enum { CLOSED = 0, RESIZED = 1, LOST = 2, GAINED = 3, TEXT = 4, KEYDOWN = 5, KEYUP = 6, WHEEL = 7, MOUSEDOWN = 9, MOUSEUP = 10, MOVED = 11 };
struct Frame { std::vector<std::pair<int, unsigned>> ev; std::set<int> keys; int w, h, mx, my, btn; };
struct Shot { std::vector<uint16_t> cells; std::vector<uint8_t> cols; int x, y; int64_t time; uint64_t h[6] = {}; };
std::vector<Frame> F; std::vector<Shot> shots; size_t next_frame; bool closed; long drawn;
// the model: what each frame's keyboard, mouse and events mean
int keymap[2][13], mode; bool mode_held; std::string file; size_t file_pos;
Shot shot(){ Shot s; for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){ s.cells.push_back(sh_con_char(x, y)); s.cols.push_back(sh_con_col(x, y)); } sh_con_pos(&s.x, &s.y); s.time = sh_time(); if (shots.size() % 16 == 15 || shots.size() + 1 == F.size()) sh_digest(s.h); return s; }
// the character that a Unicode text event types; 0: none
uint16_t typed(unsigned u){ if (u >= 32 && u < 127) return golden_wide[u]; for (int c = 0xa1; c < 0xe0; ++c) if (golden_wide[c] == u && u >> 8 == 0x30) return u; return 0; }
void apply(const Frame& f){
	for (auto& e : f.ev) if (e.first == TEXT && mode == 0){ uint16_t w = typed(e.second); if (w) sh_inkey(w); }
	while (file_pos < file.size() && sh_inkey(file[file_pos] == '\r' ? '\r' : golden_wide[(uint8_t)file[file_pos]])) ++file_pos;
	int b = 0; for (int i = 0; i < 12; ++i) if (f.keys.count(keymap[mode][i])) b |= 1 << i;
	bool m = f.keys.count(keymap[mode][12]); if (m && !mode_held) mode ^= 1; mode_held = m;
	sh_input(b); int half = f.h / 2; bool in = f.mx >= 0 && f.mx < f.w && f.my >= half && f.my < f.h, t = in && (f.btn & 1); int x = in ? 256 * f.mx / f.w : 0, y = in ? 192 * (f.my - half) / half : 0;
	sh_touch(t, x, y); p27_press(t, x, y); p27_steps();
}
void on_sleep(){ if (closed) return; shots.push_back(shot()); if (next_frame >= F.size()){ closed = true; p27_close(); return; } apply(F[next_frame++]); }
const char* const OBS[] = {
	"SPSET 0,1,2,0,0,2:SPOFS 0,0,0:SPOFS 0,200,100,60\rBGOFS 0,120,80,90\r@L\rB=BUTTON():C=BUTTON(2):E=BUTTON(3)\rIF B!=D OR C OR E THEN ?\"B\";B;C;E;\rD=B\r@K\rK$=INKEY$()\rIF K$!=\"\" THEN ?\"K\";ASC(K$);:GOTO @K\rIF TCHST OR T THEN ?\"T\";TCHST;TCHX;TCHY;TCHTIME;\rT=TCHST\rIF KEYBOARD!=Y THEN Y=KEYBOARD:?\"Y\";Y;\rF=F+1\rIF F%16==0 THEN SPREAD(0),X,Z:?X;MAINCNTL;\rVSYNC 1\rGOTO @L\r",
	"@L\rINPUT \"N\";A,B\r?A+B;A\rINPUT C$,D$\r?D$;C$\rGOTO @L\r",
	"@L\rLINPUT S$\r?S$;LEN(S$)\rGOTO @L\r",
	"BREPEAT 0,5,2:BREPEAT 4,10,0\r@L\r?BTRIG();\rWAIT 1\rGOTO @L\r",
	"@L\rK$=INKEY$()\rIF K$==\"\" THEN VSYNC 1:GOTO @L\r?K$;ASC(K$);\rWAIT 2\rGOTO @L\r",
	"?\"GO\"\rWAIT 5\r?TCHX;TCHY;\rA=1/0\r",
};
const int NOBS = sizeof OBS / sizeof *OBS;
const char* const TYPED[] = {"A=A+1", "?A;S$", "S$=\"XY\"", "WAIT 3", "?BUTTON()", "?INKEY$()", "BGOFS 0,50,50,30", "LOCATE 3,5", "INPUT Q", "LINPUT T$", "?TCHX;TCHY", "COLOR 3", "?1/0", "EXEC\"OBS0\"", "EXEC\"OBS2\"", "EXEC\"OBS3\"", "?\"lower~!@#$%^&*()_\"", "?MAINCNTL", "\xb1\xb2\xdd", "KEYBOARD", "PNLTYPE\"KYK\"", "PNLTYPE\"OFF\""};
unsigned uni(uint8_t c){ return c >= 0xa1 ? golden_wide[c] : c; }
// the storage folder as it was (FILES shows it)
void storage(){ std::filesystem::remove_all("programs"); mkdir("programs", 0755);
	for (int i = 0; i < NOBS; ++i){ std::string t = OBS[i], f = "PETC0300RPRG" + std::string(8, 0); uint32_t z = t.size(); f += std::string((char*)&z, 4) + t + std::string(-(int)z & 3, 0); FILE* o = fopen(strf("programs/OBS%d.PTC", i).c_str(), "wb"); if (!o) abort(); fwrite(f.data(), 1, f.size(), o); fclose(o); }
}
void run_case(G& g, Case& c){
	F.clear(); file.clear(); file_pos = 0; mode = 0; mode_held = false; shots.clear(); next_frame = 0; closed = false; drawn = 0; int texts = 0, touches = 0, presses = 0, modes = 0;
	// ---- the configuration
	std::string d, cfg; { static const int STD[2][13] = {{73, 74, 71, 72, 58, 99, 99, 59, 38, 42, 99, 36, 39}, {22, 18, 0, 3, 72, 74, 73, 71, 38, 42, 58, 36, 39}}; memcpy(keymap, STD, sizeof STD);
		if (g.chance(1, 2)) for (int m = 0; m < 2; ++m){ std::vector<int> k; for (int i = 0; i < 101; ++i) k.push_back(i); for (int i = 0; i < 13; ++i){ size_t j = i + g.below(k.size() - i); std::swap(k[i], k[j]); keymap[m][i] = i < 12 && g.chance(1, 10) ? 99 : k[i]; } if (m == 1 && g.chance(1, 2)) keymap[1][12] = keymap[0][12]; }
		for (int m = 0; m < 2; ++m) for (int i = 0; i < 12; ++i) if (keymap[m][i] == keymap[0][12] || keymap[m][i] == keymap[1][12]) keymap[m][i] = 99;
		for (int m = 0; m < 2; ++m){ for (int i = 0; i < 13; ++i) cfg += strf("%s%d", i ? " " : "", keymap[m][i]); cfg += "\n"; } if (g.chance(1, 2)) cfg += "\n// about this file\nFirst row: Keyboard mode 1 2 3\n"; FILE* o = fopen("resources/config.txt", "wb"); if (!o) abort(); fwrite(cfg.data(), 1, cfg.size(), o); fclose(o); }
	// ---- the program and the input file
	int obs = g.chance(1, 3) ? -1 : g.below(NOBS); bool missing = obs >= 0 && g.chance(1, 20); std::string arg = obs < 0 ? "" : missing ? "NOPE" : strf("OBS%d%s", obs, g.chance(1, 3) ? ".PTC" : ""); bool has_file = obs >= 0 && g.chance(1, 3);
	if (has_file){ for (int k = 0; g.item(k, 0, 150, 12, 13); ++k) switch (g.weighted({5, 4, 3, 2, 1})){ case 0: file += (char)('0' + g.below(10)); break; case 1: file += (char)g.range(32, 126); break; case 2: file += g.pick({"\r", ",", "-1.5,", "12,34\r", "AB,CD\r"}); break; case 3: file += (char)g.range(0x80, 0xff); break; default: { int n = g.range(1, 120); for (int i = 0; i < n; ++i) file += (char)('A' + i % 26); } }
		FILE* o = fopen("in.txt", "wb"); if (!o) abort(); fwrite(file.data(), 1, file.size(), o); fclose(o); }
	// ---- the frames
	Frame f; f.w = 512; f.h = 768; f.mx = 0; f.my = 0; f.btn = 0; int m = 0; std::map<int, int> held; int n = 0; std::deque<unsigned> pending; int burst = 1, enter = 0; int touch = 0; bool was = false;
	auto toggle = [&]{ return held.count(keymap[0][12]) || held.count(keymap[1][12]); };
	for (int k = 0; g.item(k, 1, 160, 60, 61); ++k){
		f.ev.clear(); f.keys.clear(); ++n;
		for (auto it = held.begin(); it != held.end();) if (--it->second < 0){ f.ev.push_back({KEYUP, (unsigned)it->first}); it = held.erase(it); } else ++it;
		if (!toggle()) switch (g.weighted({6, 5, 5, 5, 1, 1, 1})){
			case 0: break;
			case 1: { ++presses; int key = keymap[m][g.below(g.chance(1, 8) ? 12 : 11)]; if (g.chance(1, 8)) key = g.below(101); if (key != keymap[0][12] && key != keymap[1][12] && key != 99 && (key != keymap[m][11] || g.chance(1, 4))){ held[key] = g.chance(1, 2) ? g.below(3) : g.below(30); f.ev.push_back({KEYDOWN, (unsigned)key}); if (g.chance(1, 4)) f.ev.push_back({TEXT, (unsigned)g.pick({8, 13, 27})}); } break; }
			case 2: if (!has_file && pending.empty()){ ++texts; burst = g.chance(1, 2) ? 20 : g.range(1, 5); if (g.chance(1, 2)){ const char* t = TYPED[g.below(sizeof TYPED / sizeof *TYPED)]; for (; *t; ++t) pending.push_back(uni(*t)); pending.push_back(13); } else { int l = g.range(1, 6); for (int i = 0; i < l; ++i) switch (g.weighted({5, 4, 2, 1})){ case 0: pending.push_back(g.range(32, 126)); break; case 1: { int ch = g.range(0xa1, 0xdf); if (golden_wide[ch] >> 8 == 0x30) pending.push_back(golden_wide[ch]); break; } case 2: pending.push_back(g.pick({8, 27, 13, 0xe9, 0x81, 0xa1, 0xb1, 0xc3, 0xff, 0x3042, 0x4e00, 0xff21, 0x1f600, 0x100, 0x20ac, 0x3000, 0x30f0, 0x3040, 0x30fd, 0x3101})); break; default: pending.push_back('A' + i); } } } break;
			case 3: touch = g.chance(1, 3) ? 0 : g.chance(1, 2) ? g.range(1, 4) : g.range(10, 60); if (touch){ ++touches; bool near = g.chance(1, 2); f.mx = near ? f.w * g.pick({0, 255, 128, 20, 200}) / 256 : g.range(-20, f.w + 20); f.my = near ? f.h / 2 + f.h / 2 * g.pick({0, 191, 90, 150, 180}) / 192 : g.chance(1, 5) ? g.range(-20, f.h + 20) : f.h / 2 + (int)g.below(f.h / 2); f.ev.push_back({MOUSEDOWN, 0}); } break;
			case 4: { static const int W[] = {512, 256, 2, 3, 100, 1023, 1920, 300}; static const int HH[] = {768, 384, 2, 4, 100, 1080, 1200, 386}; int i = g.below(8); f.w = W[i]; i = g.below(8); f.h = HH[i]; if (g.chance(1, 4)){ f.w = g.range(2, 2000); f.h = 2 * g.range(1, 1000); } f.ev.push_back({RESIZED, 0}); break; }
			case 5: f.ev.push_back({g.pick({LOST, GAINED, WHEEL, MOUSEUP, MOVED, 8, 12, 13, 14, 17, 18}), (unsigned)g.below(100)}); break;
			case 6: if (pending.empty() && held.empty()){ ++modes; int mk = keymap[m][12]; held[mk] = g.chance(1, 2) ? 0 : g.range(1, 8); f.ev.push_back({KEYDOWN, (unsigned)mk}); } break;
		}
		if (!toggle()) for (int i = 0; i < burst && !pending.empty(); ++i){ unsigned u = pending.front(); pending.pop_front(); if (m == 1 && u > 127) continue; if (u == 13 && m == 0 && keymap[0][4] != 99){ held[keymap[0][4]] = g.below(3); f.ev.push_back({KEYDOWN, (unsigned)keymap[0][4]}); f.ev.push_back({TEXT, 13}); break; } f.ev.push_back({TEXT, u}); }
		if (touch > 0){ --touch; if (g.chance(1, 12)){ f.mx += g.range(-40, 40); f.my += g.range(-40, 40); f.ev.push_back({MOVED, 0}); } f.btn = 1; } else f.btn = g.chance(1, 30) ? 2 : 0;
		if (!touch && g.chance(1, 10)){ f.mx = g.range(-10, f.w + 10); f.my = g.range(-10, f.h + 10); }
		for (auto& h : held) f.keys.insert(h.first);
		F.push_back(f); bool now = held.count(keymap[m][12]); if (now && !was) m ^= 1; was = now;
	}
	d = strf("sbc %s%s\nconfig: %s", arg.c_str(), has_file ? " in.txt" : "", cfg.substr(0, cfg.find("\n\n")).c_str()); if (has_file) d += "in.txt: " + show(file) + "\n"; if (obs >= 0) d += "OBS: " + show(OBS[obs]) + "\n";
	static const char* const EV[] = {"closed", "resized", "lost focus", "gained focus", "text", "key down", "key up", "wheel"};
	for (size_t i = 0; i < F.size(); ++i){ std::string l; for (auto& e : F[i].ev) l += e.first == TEXT ? strf(" text U+%04X", e.second) : e.first < 8 ? strf(" %s %u", EV[e.first], e.second) : strf(" event %d", e.first); for (int k : F[i].keys) l += strf(" [%d]", k); if (F[i].btn) l += strf(" mouse %d at %d,%d of %dx%d", F[i].btn, F[i].mx, F[i].my, F[i].w, F[i].h); if (!l.empty()) d += strf("frame %zu:%s\n", i, l.c_str()); }
	c.text = d; note_text(d);
	// ---- the program with its window
	storage(); p27_frames((int)F.size()); int r = p27_run(arg.empty() ? nullptr : arg.c_str(), has_file ? "in.txt" : nullptr);
	if (r) c.fail("main returns %d", r); if (p27_joins != 1) c.fail("the program was not waited for"); if (p27_rate() != 60) c.fail("the frame rate is %d", p27_rate());
	std::vector<Shot> A; A.swap(shots); if (A.size() < F.size()) c.fail("%zu frames were shown, expected %zu", A.size(), F.size());
	// ---- driven directly
	storage(); p27_new(); sh_on_sleep = on_sleep; apply(F[0]); next_frame = 1; size_t q = arg.rfind(".PTC"); if (q != arg.npos) arg.resize(q); p27_launch(arg.empty() ? nullptr : arg.c_str()); sh_on_sleep = nullptr; p27_free();
	std::vector<Shot>& B = shots;
	auto rows = [](const Shot& s){ std::string t; for (int y = 0; y < 24; ++y){ std::string o; for (int x = 0; x < 32; ++x){ uint16_t w = s.cells[x + 32 * y]; int ch = w ? '?' : ' '; for (int i = 32; i < 127; ++i) if (golden_wide[i] == w) ch = i; o += (char)ch; } while (!o.empty() && o.back() == ' ') o.pop_back(); if (!o.empty()) t += strf("%2d|%s\n", y, o.c_str()); } return t; };
	static const char* const PART[] = {"console", "graphics", "background", "sprites", "characters and colors", "rest of the"};
	for (size_t i = 0; i < F.size() && i < B.size(); ++i){ const Shot &a = A[i], &b = B[i];
		if (a.cells != b.cells || a.cols != b.cols || a.x != b.x || a.y != b.y) c.fail("after frame %zu the screen shows\n%sexpected\n%s", i, rows(a).c_str(), rows(b).c_str());
		if (a.time != b.time) c.fail("after frame %zu the frame counter is %lld, expected %lld", i, (long long)a.time, (long long)b.time);
		for (int j = 0; j < 6; ++j) if (a.h[j] != b.h[j]) c.fail("after frame %zu the %s state differs", i, PART[j]); }
	if (B.size() < F.size()) c.fail("discarded: %zu of %zu frames", B.size(), F.size());
	c.label("frames", n); c.label("text entries", texts); c.label("touches", touches); c.label("key presses", presses); c.label("mode changes", modes); c.label("input files", has_file); c.nontrivial(n > 20 && texts + touches + presses + has_file > 2);
}
}
void p27_script(int i){ if (i < (int)F.size()){ const Frame& f = F[i]; p27_set(f.w, f.h, f.mx, f.my, f.btn); for (int k : f.keys) p27_key(k); for (auto& e : f.ev) p27_event(e.first, e.second); if (i == (int)F.size() - 1) p27_event(CLOSED, 0); } else p27_set(512, 768, 0, 0, 0), p27_event(CLOSED, 0); }
void p27_shown(int i){ ++drawn; if (i < (int)F.size()) shots.push_back(shot()); }
void prop_process_init(){
	std::string d = strf("w%d", (int)getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) abort(); mkdir("resources", 0755);;
	uint32_t r = 3; for (int i = 0; i < 2; ++i){ FILE* o = fopen(i ? "resources/pnlKEY.NSCR" : "resources/pnlPANEL.NSCR", "wb"); if (!o) abort(); for (int k = 0; k < 36 + 32 * 24 * 2; ++k){ r = r * 1664525 + 1013904223; fputc(r >> 24, o); } fclose(o); }
}
const Prop the_prop = {"P27", run_case, 5000, 150000,
	"One case = a run of main() with up to 160 frames of keyboard state, mouse, window events (text, keys, resizing, others) for a generated key configuration, as a DIRECT mode session or with one of six observing programs given by name, optionally with an input file. After each frame the screen, the frame counter and the state are compared with the same system driven directly by what the input stands for. Non-trivial: more than 20 frames and more than two kinds of input.", nullptr};

// P26: the picture on both screens against the layers' contents.
#include "model.h"
#include "panelkeys.h"
#include <unistd.h>
#include <sys/stat.h>
#include <cmath>
extern "C" {
extern uint32_t p26_fb[384][256]; extern int p26_shown; int p26_texel(float, float, uint8_t*); void p26_shade(float, int, int, int, uint8_t*);
void sh_display(int); void sh_draw(); void sh_mark_redraw(); int sh_panel_state(int); int sh_key_count(int); void sh_key(int, int, int*); int sh_pnl_text(int, int, int); int sh_pnl_color(int, int, int); void sh_press(int, int, int);
uint8_t* sh_chr(int); uint8_t* sh_col(int); void sh_sprite(int, int, int*); uint16_t* sh_scr(int, int); uint8_t sh_grp(int, int, int); void sh_bg_ofs(int, int, int32_t*, int32_t*);
}
// /repo's fragment shader, as C++ (or, if it is not written in this subset, its meaning)
namespace frag {
struct vec2 { float x, y; vec2(float a = 0, float b = 0): x(a), y(b){} };
struct vec4 { union { struct { float x, y, z, w; }; struct { float r, g, b, a; }; struct { float s, t, p, q; }; }; vec4(float A = 0, float B = 0, float C = 0, float D = 0): x(A), y(B), z(C), w(D){} };
struct sampler2D { int kind; }; struct coord { vec2 xy, st; };
uint8_t cur[4]; coord gl_TexCoord[1]; vec4 gl_Color, gl_FragColor; bool is_colors(const sampler2D& s);
vec4 texture2D(const sampler2D& s, vec2 at){ uint8_t o[4]; if (!is_colors(s)) return vec4(cur[0] / 255.0f, 0, 0, 0); p26_texel(at.x, at.y, o); return vec4(o[0] / 255.0f, o[1] / 255.0f, o[2] / 255.0f, o[3] / 255.0f); }
#ifndef NO_FRAG
#define uniform
#include "../resources/bgsp.frag"
#undef uniform
bool is_colors(const sampler2D& s){ return &s == &colors; }
#else
sampler2D texture, colors; bool grp_mode; float colbank; bool is_colors(const sampler2D& s){ return &s == &colors; }
void main(){ float r = cur[0] / 255.0f; gl_FragColor = texture2D(colors, vec2(grp_mode || !cur[0] ? r : r + gl_Color.x, colbank / 5.0f)); }
#endif
}
void p26_shade(float bank, int grp, int red, int r, uint8_t* out){ frag::cur[0] = r; frag::gl_Color = frag::vec4(red / 255.0f, 0, 0, 1); frag::colbank = bank; frag::grp_mode = grp; frag::main(); auto q = [](float v){ return (uint8_t)(v * 255 + 0.5f); }; out[0] = q(frag::gl_FragColor.r); out[1] = q(frag::gl_FragColor.g); out[2] = q(frag::gl_FragColor.b); out[3] = q(frag::gl_FragColor.a); }
const char* const CHR_FILES[] = {"BGF0", "BGD0", "BGD1", "BGU0", "BGU1", "BGU2", "BGU3", "SPU0", "SPU1", "SPU2", "SPU3", "SPU4", "SPU5", "SPU6", "SPU7", "SPD0", "SPD1", "SPD2", "SPD3", "SPS0", "SPS1"};
void prop_process_init(){
	std::string d = strf("w%d", (int)getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) abort(); mkdir("resources", 0755); mkdir("store", 0755);
	// definitions for CHRINIT and COLINIT, and files to load
	uint32_t r = 7; auto put = [&](const std::string& n, const char* t, int size){ FILE* f = fopen((n + ".PTC").c_str(), "wb"); if (!f) abort(); fprintf(f, "PETC0100R%s", t); int q = 0; for (int i = 0; i < size; ++i){ r = r * 1664525 + 1013904223; if (i % 32 == 0) q = r >> 24; int v = r >> 24; fputc(q % 4 == 0 ? q : q % 4 == 1 ? v & r >> 16 & 255 : v, f); } fclose(f); };
	for (auto n : CHR_FILES) put(std::string("resources/") + n, "CHR", 8192); for (auto n : {"COL0", "COL1", "COL2"}) put(std::string("resources/") + n, "COL", 512);
	put("store/A", "CHR", 8192); put("store/B", "CHR", 8192); put("store/C", "COL", 512); put("store/D", "COL", 512); put("store/S", "SCR", 8192); put("store/G", "GRP", 49152);
	for (int i = 0; i < 2; ++i){ FILE* f = fopen(i ? "resources/pnlKEY.NSCR" : "resources/pnlPANEL.NSCR", "wb"); if (!f) abort(); for (int k = 0; k < 36; ++k) fputc(0xee, f); for (int k = 0; k < 32 * 24; ++k){ int v = (k * 7 + i * 91) % 512 | (k * 5 % 7 == 0) << 10 | (k * 3 % 5 == 0) << 11 | (k + i) % 16 << 12; if (k % 9 < 5) v = 0; fputc(v & 255, f); fputc(v >> 8, f); } fclose(f); }
}
namespace {
const int TRANS = -1, MAYBE = -2; // a layer's pixel: color, nothing, either
uint8_t* CH[44]; uint32_t RGB[6][256];
int fdiv(int a, int b){ return a >= 0 ? a / b : -((-a + b - 1) / b); }
int inv[65536];
struct Picture { int want[384][256]; // color, or MAYBE
	void layer(int y, int x, int v){ if (v == TRANS) return; if (v == MAYBE) want[y][x] = MAYBE; else want[y][x] = v; }
	int tilepix(int base, int tiles, int tile, int x, int y){ if (tile < 0 || tile >= tiles) return MAYBE; uint8_t b = CH[base + tile / 256][32 * (tile % 256) + 4 * y + x / 2]; return x & 1 ? b >> 4 : b & 15; }
	int color(int bank, int pal, int px){ return px == MAYBE ? MAYBE : px == 0 ? TRANS : (int)RGB[bank][16 * pal + px]; }
};
struct Sprite { int w, h, chr, pal, fx, fy, hx, hy, x, y, angle, scale; };
// the sprite's pixel (color index) at source position, or TRANS when outside
int src_pix(Picture& p, const Sprite& s, int base, int tiles, double u, double v){ if (u < 0 || v < 0 || u >= s.w || v >= s.h) return 0; int a = (int)u, b = (int)v; if (s.fx) a = s.w - 1 - a; if (s.fy) b = s.h - 1 - b; return p.tilepix(base, tiles, 4 * s.chr + a / 8 + b / 8 * (s.w / 8), a % 8, b % 8); }
void draw_sprite(Picture& p, const Sprite& s, int screen, int bank, int base, int tiles, int (*out)[256]){ // out: per screen pixel, TRANS / color / MAYBE for a group of sprites
	auto put = [&](int y, int x, int v){ if (v == TRANS) return; int& o = out[y][x]; if (v == MAYBE || (o != TRANS && o != v)) o = MAYBE; else o = v; }; (void)screen;
	if (!s.angle && s.scale == 4096){ int X = fdiv(s.x, 4096) - s.hx, Y = fdiv(s.y, 4096) - s.hy; for (int v = 0; v < s.h; ++v) for (int u = 0; u < s.w; ++u){ int x = X + u, y = Y + v; if (x < 0 || y < 0 || x >= 256 || y >= 192) continue; put(y, x, p.color(bank, s.pal, src_pix(p, s, base, tiles, u + .5, v + .5))); } return; }
	double sc = s.scale / 4096.0, a = s.angle / 4096.0 * M_PI / 180, X = s.x / 4096.0, Y = s.y / 4096.0, co = cos(a), si = sin(a); double R = 0; for (int i = 0; i < 4; ++i){ double dx = (i & 1 ? s.w : 0) - s.hx, dy = (i & 2 ? s.h : 0) - s.hy; R = std::max(R, std::sqrt(dx * dx + dy * dy) * sc); } R += 4;
	// a pixel is certain if all of the sprite's pixels up to D away (on the screen) have one color
	for (int y = std::max(0, (int)floor(Y - R)); y < 192 && y <= Y + R; ++y) for (int x = std::max(0, (int)floor(X - R)); x < 256 && x <= X + R; ++x){
		double dx = x + .5 - X, dy = y + .5 - Y, D = 1.75; if (sc == 0){ put(y, x, fabs(dx) > 3 || fabs(dy) > 3 ? TRANS : MAYBE); continue; }
		double u = (dx * co + dy * si) / sc + s.hx, v = (-dx * si + dy * co) / sc + s.hy, d = D / sc; if (u + d < 0 || v + d < 0 || u - d >= s.w || v - d >= s.h) continue;
		if (d > 7){ put(y, x, MAYBE); continue; }
		int c = src_pix(p, s, base, tiles, u, v); bool sure = true; for (int b = (int)floor(v - d); sure && b <= v + d; ++b) for (int a = (int)floor(u - d); sure && a <= u + d; ++a){ double eu = std::max(0.0, std::max(a - u, u - a - 1)), ev = std::max(0.0, std::max(b - v, v - b - 1)); if (eu * eu + ev * ev <= d * d && src_pix(p, s, base, tiles, a + .5, b + .5) != c) sure = false; }
		put(y, x, sure ? p.color(bank, s.pal, c) : MAYBE); }
}
struct State { int vis = 63, prio[2] = {3, 3}, disp[2] = {0, 1}, type = 2, pressed = 0, puse = 0; };
std::string where_of(int y, int x){ return strf("%s screen, pixel %d,%d", y < 192 ? "upper" : "lower", x, y % 192); }
void expect(Picture& p, const State& S){
	for (int i = 0; i < 44; ++i) CH[i] = sh_chr(i);
	for (int b = 0; b < 6; ++b) for (int i = 0; i < 256; ++i){ uint16_t v = ((uint16_t*)sh_col(b))[i]; int r = v & 31, g = (v >> 5 & 31) << 1 | v >> 15, bl = v >> 10 & 31; RGB[b][i] = r << 3 | g << 2 << 8 | bl << 3 << 16; }
	memset(p.want, 0, sizeof p.want); static int grp[192][256];
	for (int sc = 0; sc < 2; ++sc){ int Y0 = 192 * sc; bool panel = S.vis & 2;
		auto graphics = [&](int prio){ if (prio != S.prio[sc] || !(S.vis & 32) || (sc && (S.type >= 2 || !panel))) return; for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x){ int v = sh_grp(S.disp[sc], x, y); p.layer(Y0 + y, x, v ? (int)RGB[3 * sc + 2][v] : TRANS); } };
		auto sprites = [&](int prio){ if (!(S.vis & 16) || (sc && (S.type != 0 || !panel))) return; bool any = false; for (int i = 0; i < 100; ++i){ int o[19]; sh_sprite(sc, i, o); if (!o[0] || o[5] != prio) continue; if (!any){ for (auto& r : grp) for (int& v : r) v = TRANS; any = true; } Sprite s = {o[3], o[4], o[14], o[2], o[6], o[7], o[8], o[9], o[10], o[11], o[12], o[13]}; draw_sprite(p, s, sc, 3 * sc + 1, sc ? 42 : 12, sc ? 512 : 2048, grp); } if (any) for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x) p.layer(Y0 + y, x, grp[y][x]); };
		auto bg = [&](int l){ if (!(S.vis & (l ? 8 : 4))) return; int32_t ox, oy; sh_bg_ofs(sc, l, &ox, &oy); ox = fdiv(ox, 4096); oy = fdiv(oy, 4096); const uint16_t* m = sh_scr(sc, 2 + l); for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x){ int a = (x + ox) & 511, b = (y + oy) & 511, tx = a / 8, ty = b / 8; int t = m[tx % 32 + ty % 32 * 32 + tx / 32 * 1024 + ty / 32 * 2048]; int u = a % 8, v = b % 8; if (t & 0x400) u = 7 - u; if (t & 0x800) v = 7 - v; p.layer(Y0 + y, x, p.color(3 * sc, t >> 12, p.tilepix(22 * sc + 8, 1024, t & 1023, u, v))); } };
		auto grid = [&](auto f){ for (int cy = 0; cy < 24; ++cy) for (int cx = 0; cx < 32; ++cx) for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x) p.layer(Y0 + 8 * cy + y, 8 * cx + x, f(cx, cy, x, y)); };
		auto keys = [&](int icons){ for (auto& r : grp) for (int& v : r) v = TRANS; static int one[192][256]; for (int i = 0; i < sh_key_count(icons); ++i){ int o[8]; sh_key(icons, i, o); if (icons && !o[0]) continue; const short* q = PANEL_KEY[icons ? 89 + i : i]; for (int k = 0; k < 4; ++k) o[1 + k] = q[k]; o[7] = q[5]; if (icons && i < 2) o[5] = 316 + i; else if (!icons) o[5] = q[4]; int d = o[7] == S.pressed ? 1 : 0; Sprite s = {o[3], o[4], o[5], o[6], 0, 0, 0, 0, (o[1] + d) * 4096, (o[2] + d) * 4096, 0, 4096}; for (auto& r : one) for (int& v : r) v = TRANS; draw_sprite(p, s, 1, 4, 34, 2048, one); for (int y = 0; y < 192; ++y) for (int x = 0; x < 256; ++x) if (one[y][x] != TRANS) p.layer(Y0 + y, x, one[y][x]); } };
		graphics(3); sprites(3); bg(1); graphics(2); sprites(2); bg(0); graphics(1); sprites(1);
		if (!sc){ grid([&](int cx, int cy, int x, int y){ int c = sh_con_col(cx, cy) >> 4; return p.color(0, c, p.tilepix(4, 1024, c ? 15 : 0, x, y)); }); if (S.vis & 1) grid([&](int cx, int cy, int x, int y){ return p.color(0, sh_con_col(cx, cy) & 15, p.tilepix(0, 512, inv[sh_con_char(cx, cy)], x, y)); }); }
		else { if (panel && S.type != 0){ const uint16_t* m = sh_scr(1, 1); grid([&](int cx, int cy, int x, int y){ int t = m[cx + 32 * cy]; return p.color(3, t >> 12, p.tilepix(26, 1024, t & 1023, t & 0x400 ? 7 - x : x, t & 0x800 ? 7 - y : y)); }); } if (panel && S.type >= 2) keys(0);
			int k = S.type >= 2; grid([&](int cx, int cy, int x, int y){ int v = p.color(3, sh_pnl_color(k, cx, cy), p.tilepix(22, 512, inv[sh_pnl_text(k, cx, cy)], x, y)); return v != TRANS && !panel ? MAYBE : v; }); }
		graphics(0); sprites(0);
		if (!sc && sh_panel_state(2)){ int x, y; sh_con_pos(&x, &y); for (auto& r : grp) for (int& v : r) v = TRANS; Sprite s = {8, 8, 108, 0, 0, 0, 0, 0, x * 8 * 4096, y * 8 * 4096, 0, 4096}; draw_sprite(p, s, 0, 1, 20, 512, grp); for (int b = 0; b < 192; ++b) for (int a = 0; a < 256; ++a) p.layer(b, a, grp[b][a]); }
		if (sc) keys(1);
	}
}
Case* cur; State* cst; std::string* call; uint64_t frames, cursors, unsure; int stage;
void compare(){ static Picture p; int n = p26_shown; sh_draw(); if (p26_shown != n + 1) cur->fail("nothing was shown"); expect(p, *cst); ++frames; if (sh_panel_state(2)) ++cursors;
	for (int y = 0; y < 384; ++y) for (int x = 0; x < 256; ++x) if (p.want[y][x] == MAYBE) ++unsure; else if ((uint32_t)p.want[y][x] != p26_fb[y][x]){ int bad = 0; for (int b = 0; b < 384; ++b) for (int a = 0; a < 256; ++a) bad += p.want[b][a] != MAYBE && (uint32_t)p.want[b][a] != p26_fb[b][a]; uint32_t e = p.want[y][x], f = p26_fb[y][x]; cur->text = show(*call); note_text(cur->text); cur->fail("picture %d: %d pixels are wrong, first %s: color %d,%d,%d, expected %d,%d,%d", (int)frames, bad, where_of(y, x).c_str(), f & 255, f >> 8 & 255, f >> 16 & 255, e & 255, e >> 8 & 255, e >> 16 & 255); } }
void on_sleep(){ sh_frame(); if (stage == 0 || stage == 3) compare(); if (stage == 1) sh_inkey(golden_wide['X']); if (stage > 3) sh_inkey('\r'); ++stage; }
void run_case(G& g, Case& c){
	static bool once = false; if (!once){ for (int i = 255; i >= 0; --i) inv[golden_wide[i]] = i; once = true; }
	sh_new(64, 400, 4096); sh_search_path("store/"); uint64_t r = g.bits(); auto rnd = [&]{ r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33); };
	int style = g.below(3); for (int i = 0; i < 44; ++i) for (int t = 0; t < 256; ++t){ uint8_t* d = sh_chr(i) + 32 * t; int how = style == 2 ? rnd() % 5 : style ? 0 : rnd() % 3; uint8_t a = rnd() & 15; for (int k = 0; k < 32; ++k) d[k] = how == 0 ? a * 17 : how == 1 ? rnd() : how == 2 ? (rnd() & rnd()) : how == 3 ? (k < 16 ? a * 17 : 0) : (k % 4 < 2 ? a : 15 - a) * 17; }
	for (int i : {8, 9, 30, 31}) memset(sh_chr(i), 0, 32); for (int i : {0, 4, 22, 26}) { memset(sh_chr(i), 0, 32); memset(sh_chr(i) + 32 * 32, 0, 32); } // mostly empty: character 0 and the blank
	for (int b = 0; b < 6; ++b) for (int i = 0; i < 256; ++i) ((uint16_t*)sh_col(b))[i] = rnd();
	sh_display(1); struct Off { ~Off(){ sh_display(0); } } off; State S; std::string P, all; cur = &c; cst = &S; call = &all; frames = cursors = unsure = 0; int stm = 0, pg[3] = {0, 0, 0}; std::map<std::string, int> kinds;
	auto run = [&](const std::string& s, int want = 0){ c.text = show(all); note_text(c.text); int e = run_prog(s); if (e != want) c.fail("%s ends with %s, expected %s", show(s).c_str(), err_name(e).c_str(), err_name(want).c_str()); };
	auto flush = [&]{ if (!P.empty()){ run(P); P.clear(); } };
	if (g.chance(1, 2)) run("VISIBLE 1,1,1,1,1,1\rGPAGE 1,1,1:GPRIO 3:GPAGE 0,0,0:GPRIO 3\r"); else c.label("state right after the start");
	auto num = [&](int lo, int hi){ fx v = g.chance(1, 2) ? g.range(lo, hi) * 4096 : g.range(lo * 16, hi * 16) * 256; return num_lit(v); };
	auto text = [&](int n){ std::string s; for (int i = g.range(0, n); i >= 0; --i) s += (char)(g.chance(1, 6) ? 'A' : 0x21 + rnd() % 0x5e); for (char& ch : s) if (ch == '"') ch = '!'; return s; };
	auto spr = [&]{ return g.pick({0, 1, 2, 31, 5}); };
	for (int k = 0; g.item(k, 2, 40, 25, 26); ++k){
		std::string s; int err = 0; (void)err;
		switch (g.weighted({8, 6, 5, 10, 8, 6, 5, 4, 4, 4, 3, 10, 2, 3, 4})){
			case 0: { s = strf("LOCATE %d,%d:COLOR %d,%d:PRINT \"%s\"%s", g.below(32), g.below(24), g.below(16), g.chance(1, 2) ? (int)g.below(16) : 0, text(40).c_str(), g.chance(1, 2) ? ";" : ""); ++kinds["text"]; break; }
			case 1: { int x = g.pick({0, 1, 31, 32, 63, (int)g.below(64)}), y = g.pick({0, 1, 31, 32, 63, (int)g.below(64)}), l = g.below(2), w = g.below(9), h = g.below(9); int ch = rnd() % 1024, pal = rnd() % 16, H = rnd() & 1, V = rnd() & 1; s = g.chance(1, 2) ? strf("BGPUT %d,%d,%d,%d,%d,%d,%d", l, x, y, ch, pal, H, V) : strf("BGFILL %d,%d,%d,%d,%d,%d,%d,%d,%d", l, x, y, std::min(63, x + w), std::min(63, y + h), ch, pal, H, V); ++kinds["tiles"]; break; }
			case 2: s = strf("BGOFS %d,%s,%s", g.below(2), num(g.chance(1, 2) ? -20 : -1200, 1200).c_str(), num(g.chance(1, 2) ? -20 : -1200, 600).c_str()) + (g.chance(1, 4) ? strf(",%d", g.below(20)) : ""); ++kinds["scroll"]; break;
			case 3: { int id = spr(); static const int Z[] = {8, 16, 32, 64}; s = strf("SPSET %d,%d,%d,%d,%d,%d", id, rnd() % (pg[1] ? 118 : 512), (int)(rnd() % 16), g.below(2), g.below(2), g.below(4)); if (g.chance(1, 2)) s += strf(",%d,%d", Z[g.below(4)], Z[g.below(4)]); s += strf(":SPOFS %d,%s,%s", id, num(-20, 260).c_str(), num(-20, 200).c_str()); if (g.chance(1, 3)) s += strf(":SPHOME %d,%d,%d", id, g.range(-20, 40), g.range(-20, 40)); ++kinds["sprites"]; break; }
			case 4: { int id = spr(), o[19]; flush(); sh_sprite(pg[1], id, o); if (!o[0]) continue; switch (g.below(6)){ case 0: s = strf("SPANGLE %d,%d", id, g.chance(1, 2) ? g.pick({90, 180, 270, 0, 45}) : g.range(0, 359)); break; case 1: s = strf("SPSCALE %d,%d", id, g.chance(1, 2) ? g.pick({200, 100, 50, 0, 150}) : (int)g.below(201)); break; case 2: s = strf("SPOFS %d,%s,%s,%d", id, num(-20, 260).c_str(), num(-20, 200).c_str(), g.below(30)); break; case 3: s = strf("SPANIM %d,%d,%d", id, g.range(1, 4), g.range(1, 5)); break; case 4: s = strf("SPCHR %d,%d", id, (int)(rnd() % 118)); break; default: s = g.chance(1, 2) ? strf("SPCLR %d", id) : strf("SPHOME %d,%d,%d", id, g.range(-20, 40), g.range(-20, 40)); } ++kinds["changed sprites"]; break; }
			case 5: { int x = g.below(256), y = g.below(192); switch (g.below(3)){ case 0: s = strf("GFILL %d,%d,%d,%d,%d", x, y, (int)g.below(256), (int)g.below(192), (int)(rnd() % 256)); break; case 1: s = strf("GPSET %d,%d,%d", x, y, (int)(rnd() % 256)); break; default: s = strf("GLINE %d,%d,%d,%d,%d", x, y, (int)g.below(256), (int)g.below(192), (int)(rnd() % 256)); } ++kinds["graphics"]; break; }
			case 6: { int w = g.below(3), v = g.below(2); if (w == 2){ int dr = g.below(4), di = g.chance(1, 2) ? dr : (int)g.below(4); s = strf("GPAGE %d,%d,%d", v, dr, di); S.disp[v] = di; pg[2] = v; if (g.chance(1, 2)){ int pr = g.below(4); s += strf(":GPRIO %d", pr); S.prio[v] = pr; } } else { s = strf("%s %d", w ? "SPPAGE" : "BGPAGE", v); pg[w] = v; } break; }
			case 7: { s = "VISIBLE "; int v = 0; bool keep = g.chance(1, 3); for (int i = 0; i < 6; ++i){ if (keep && g.chance(1, 2) && i < 5){ v |= S.vis & 1 << i; } else { int b = g.chance(3, 4); v |= b << i; s += strf("%d", b); } if (i < 5) s += ","; } S.vis = v; ++kinds["VISIBLE"]; break; }
			case 8: { static const char* B[] = {"BGU", "BGF", "BGD", "SPU", "SPS", "SPD"}; static const int N[] = {4, 1, 2, 8, 2, 4}; int t = g.below(6), b = g.below(N[t]); std::string d; int st = g.below(2); char q = "0123456789ABCDEF"[rnd() % 16]; for (int i = 0; i < 64; ++i) d += st ? q : "0123456789ABCDEF"[rnd() % 16]; int id = t == 1 ? 0x21 + rnd() % 0x5e : rnd() % 256, lower = g.below(2);
				if (g.chance(1, 2)){ std::string a; // of something that is shown
					if (t == 0){ a = strf("BGPAGE %d:BGFILL %d,0,0,63,63,%d,%d,0,0", pg[0] = lower, g.below(2), b * 256 + id, (int)(rnd() % 16)); }
					else if (t == 1) a = strf("LOCATE %d,%d:PRINT \"%s\";", g.below(32), g.below(24), std::string(1, (char)(id == '"' ? id = 'A' : id)).c_str());
					else if (t == 3 || (t == 4 && b * 256 + id < 472)){ pg[1] = t == 4; a = strf("SPPAGE %d:SPSET 5,%d,%d,0,0,0:SPOFS 5,%d,%d", t == 4, (b * 256 + id) / 4, (int)(rnd() % 16), (int)(rnd() % 240), (int)(rnd() % 170)); }
					if (!a.empty()){ P += a + "\r"; all += a + "\r' picture\r"; flush(); compare(); ++kinds["aimed CHRSET"]; } }
				s = strf("CHRSET \"%s%d%s\",%d,\"", B[t], b, t == 3 || t == 5 ? "" : lower ? "L" : "U", id) + d + "\""; ++kinds["CHRSET"]; break; }
			case 9: { static const char* B[] = {"BG", "SP", "GRP"}; s = strf("COLSET \"%s\",%d,\"%06X\"", B[g.below(3)], g.pick({0, 1, 15, 255, (int)g.below(256)}), rnd() & 0xffffff); ++kinds["COLSET"]; break; }
			case 10: { int t = g.below(5); static const char* N[] = {"OFF", "PNL", "KYA", "KYM", "KYK"}; s = strf("PNLTYPE \"%s\"", N[t]); S.type = t; ++kinds["PNLTYPE"]; break; }
			case 11: { flush(); int n = g.below(12); for (int i = 0; i < n; ++i) sh_frame(); if (n) all += strf("' %d frames\r", n); if (g.chance(1, 3)){ int x, y; if (g.chance(1, 8)) x = g.below(256), y = g.below(192); else { const Rect& q = RS[g.below(RS.size())]; x = q.x + g.below(q.w), y = q.y + g.below(q.h); }
				S.pressed = 0; for (auto& q : RS) if (x >= q.x && x < q.x + q.w && y >= q.y && y < q.y + q.h && (q.key < 80 || q.key > 81 || S.puse)) S.pressed = q.key; if (S.pressed == 1 && S.type >= 2){ S.pressed = 0; continue; } if (S.type >= 2 && S.pressed >= 62 && S.pressed <= 64) S.type = S.pressed - 60;
				sh_press(1, x, y); all += strf("' touch %d,%d\r", x, y); ++kinds["touched pictures"]; compare(); S.pressed = 0; sh_press(0, 0, 0); continue; } all += "' picture\r"; compare(); continue; }
			case 12: { flush(); stage = 0; sh_on_sleep = on_sleep; sh_test_mode(false); int type = S.type; S.type = 2; /* the keyboard is shown meanwhile */ s = strf("LOCATE %d,%d:INPUT A$", g.below(32), g.below(23)); all += s + "\r"; run(s + "\r"); S.type = type; sh_on_sleep = nullptr; sh_test_mode(true); continue; }
			case 14: { std::string b = CHR_FILES[g.below(21)]; bool u = b.compare(0, 3, "SPU") == 0, d = b.compare(0, 3, "SPD") == 0; if (!u && !d) b += g.below(2) ? "L" : "U"; if (g.chance(1, 2)){ flush(); all += "' picture\r"; compare(); }
				switch (g.below(6)){ case 0: s = "CHRINIT \"" + b + "\""; break; case 1: s = "LOAD \"" + b + ":" + g.pick({"A", "B"}) + "\""; break; case 2: s = strf("COLINIT \"%s\"", g.pick({"BG", "SP", "GRP"})); if (g.chance(1, 3)) s += strf(",%d", g.below(256)); break; case 3: s = g.chance(1, 4) ? std::string("COLINIT") : strf("LOAD \"COL%d%s:%s\"", g.below(3), g.pick({"U", "L", ""}), g.pick({"C", "D"})); break; case 4: s = strf("LOAD \"SC%s%d%s:S\"", "U", g.below(2), g.pick({"U", "L"})); break; default: s = strf("LOAD \"GRP%d:G\"", g.below(4)); } ++kinds["loaded"]; break; }
			default: switch (g.below(6)){ case 0: s = strf("PNLSTR %d,%d,\"%s\",%d", g.below(32), g.below(24), text(20).c_str(), g.below(16)); break; case 1: s = strf("ICONSET %d,%d", g.below(4), g.below(64)); break; case 2: s = g.chance(1, 2) ? "ICONCLR" : strf("ICONCLR %d", g.below(4)); break; case 3: s = strf("ICONPUSE=%d", S.puse = g.below(2)); break; case 4: s = strf("KEY %d,\"%s\"", g.range(1, 5), text(5).c_str()); break; default: s = g.pick({"CLS", "BGCLR", "SPCLR", "GCLS", "ACLS"}); if (s == "ACLS"){ S.vis = 63; S.prio[0] = S.prio[1] = 3; S.disp[0] = 0; S.disp[1] = 1; pg[0] = pg[1] = pg[2] = 0; ++kinds["ACLS"]; } } ++kinds["panel and clearing"]; break;
		}
		++stm; P += s + "\r"; all += s + "\r";
	}
	flush(); compare(); c.text = show(all); note_text(c.text);
	c.label("pictures", frames); c.label("pictures with a cursor", cursors); c.label("pixels compared", frames * 98304 - unsure); c.label("pixels not compared", unsure); for (auto& q : kinds) c.label(q.first, q.second); c.nontrivial(stm > 3 && kinds.size() > 2);
}
}
const Prop the_prop = {"P26", run_case, 3500, 120000,
	"One case = random character and color banks and a history of up to 40 statements that write text, tiles, graphics, sprites (moved, rotated, scaled, animated, with home positions), scroll, set priorities, pages, visibility, panel type, icons, panel text, characters and colors, with frames and touches in between. /repo draws into a software display that runs its own shader; each of the pictures is compared pixel by pixel with the one composed from the layers' contents. Pixels near the inner edges of rotated or scaled sprites, and where sprites of the same priority overlap, are left out. Non-trivial: more than three statements of at least three kinds.", nullptr};

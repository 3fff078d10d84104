// P12: background layers against a plain grid model.
#include "model.h"
extern "C" { uint16_t* sh_scr(int screen, int bank); void sh_bg_ofs(int, int, int32_t*, int32_t*); void sh_digest(uint64_t[6]); }
namespace {
struct Layer { uint16_t t[64][64]; double sx, sy, err; fx x, y, tx, ty; int time, left; };
struct Read { std::string what; int idx; bool str; WStr s; fx n; };
fx lim(fx v){ return v <= -(524287 << 12) ? -(524287 << 12) : v; }
struct World {
	Layer L[2][2]; int page = 0;
	World(){ memset(L, 0, sizeof L); }
	Layer& cur(int l){ return L[page][l]; }
};
int clampi(int v){ return v < 0 ? 0 : v > 63 ? 63 : v; }
fx coord(G& g){ fx v; switch (g.weighted({10, 3, 2, 1})){ case 0: v = gen_int_fx(g, 0, 63); break; case 1: v = (fx)((uint32_t)g.pick({0, 31, 32, 63, 62, 33, 30, 1}) << 12); break; case 2: v = gen_int_fx(g, -70, 140); break; default: v = lim(gen_fx(g)); } if (g.chance(1, 12)) v = lim((fx)(((uint32_t)v & ~4095u) + g.below(4096))); return v; }
std::string n_(fx v){ return num_lit(v); }
std::string hex4(int v, int w){ std::string s = strf("%X", v); while ((int)s.size() < w) s = "0" + s; return s; }
void run_case(G& g, Case& c){
	sh_new(64, 128, 4096); run_prog("DIM R[1200],R$[300]\r"); World W; std::vector<Read> reads; uint64_t d0[6], d1[6]; sh_digest(d0); bool other = false;
	std::string P, all; int want = 0, nr = 0, ns = 0, cmds = 0, copies = 0, timed = 0;
	auto state = [&](){
		for (int s = 0; s < 2; ++s) for (int l = 0; l < 2; ++l){ const uint16_t* raw = sh_scr(s, 2 + l); Layer& q = W.L[s][l];
			for (int y = 0; y < 64; ++y) for (int x = 0; x < 64; ++x){ int got = sh_bg(s, l, x, y), r = raw[x % 32 + y % 32 * 32 + x / 32 * 1024 + y / 32 * 2048]; if (got != q.t[y][x] || r != got) c.fail("screen %d layer %d tile %d,%d is %04x (in its 32x32 block: %04x), expected %04x", s, l, x, y, got, r, q.t[y][x]); }
			fx x, y; sh_bg_ofs(s, l, &x, &y); if (!q.left){ if (x != q.x || y != q.y) c.fail("screen %d layer %d is scrolled to %s,%s, expected %s,%s", s, l, fxs(x).c_str(), fxs(y).c_str(), fxs(q.x).c_str(), fxs(q.y).c_str()); }
			else { int k = q.time - q.left; double ex = q.sx + (q.tx - q.sx) * k / q.time, ey = q.sy + (q.ty - q.sy) * k / q.time, d = k + 1.0; if (x < ex - d || x > ex + d || y < ey - d || y > ey + d) c.fail("screen %d layer %d after %d of %d frames is scrolled to %s,%s, expected about %f,%f", s, l, k, q.time, fxs(x).c_str(), fxs(y).c_str(), ex / 4096, ey / 4096); q.x = x; q.y = y; } }
	};
	auto check = [&](){
		c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear();
		if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str());
		want = 0; state();
		for (auto& r : reads){ if (r.str){ uint16_t b[512]; int n = sh_astr("R$", r.idx, -1, b); WStr s(b, n < 0 ? 0 : n); if (s != r.s) c.fail("%s is %s, expected %s", r.what.c_str(), showw(s).c_str(), showw(r.s).c_str()); } else { fx v; sh_anum("R", r.idx, -1, &v); if (v != r.n) c.fail("%s is %s, expected %s", r.what.c_str(), fxs(v).c_str(), fxs(r.n).c_str()); } }
		reads.clear();
	};
	auto rnum = [&](const std::string& what, int v){ reads.push_back({what, nr++, false, WStr(), v << 12}); return strf("R[%d]", nr - 1); };
	for (int k = 0; g.item(k, 1, 70, 24, 25) && nr < 1150 && ns < 290; ++k){
		std::string s; bool err = false; int l = g.below(2), lb = g.chance(1, 40) ? (g.chance(1, 2) ? 2 : -1) : l; if (lb != l) err = true;
		int chr = 0, pal = 0, h = 0, v = 0; uint16_t tile; std::string ts; 
		auto gen_tile = [&](){ tile = (uint16_t)(g.chance(1, 3) ? g.pick({0, 1, 0x3ff, 0x400, 0x800, 0xffff, 0x8000, 0xf000, 0x7fff, 0xabc}) : g.below(65536));
			chr = tile & 1023; pal = tile >> 12; h = tile >> 10 & 1; v = tile >> 11 & 1;
			switch (g.below(3)){ case 0: ts = strf("%d", tile); break; case 1: ts = "\"" + hex4(tile, g.chance(1, 3) ? 1 : 4) + "\""; break;
				default: { int z[4] = {chr, pal, h, v}; if (g.chance(1, 25)){ int q = g.below(4); static const int mx[] = {1023, 15, 1, 1}; z[q] = g.chance(1, 2) ? -1 : mx[q] + 1; err = true; } ts = strf("%d,%d,%d,%d", z[0], z[1], z[2], z[3]); } } };
		World U = W; Layer& q = U.cur(l);
		switch (g.weighted({10, 6, 6, 3, 1, 2, 6, 12, 2, 6, 1, 1})){
			case 0: { fx x = coord(g), y = coord(g); gen_tile(); s = strf("BGPUT %d,", lb) + n_(x) + "," + n_(y) + "," + ts; q.t[(y >> 12) & 63][(x >> 12) & 63] = tile; break; }
			case 1: { fx z[4]; for (fx& a : z) a = coord(g); gen_tile(); s = strf("BGFILL %d,", lb) + n_(z[0]) + "," + n_(z[1]) + "," + n_(z[2]) + "," + n_(z[3]) + "," + ts;
				int x1 = clampi(z[0] >> 12), y1 = clampi(z[1] >> 12), x2 = clampi(z[2] >> 12), y2 = clampi(z[3] >> 12); if (x1 > x2) std::swap(x1, x2); if (y1 > y2) std::swap(y1, y2); for (int y = y1; y <= y2; ++y) for (int x = x1; x <= x2; ++x) q.t[y][x] = tile; break; }
			case 2: { fx z[6]; for (fx& a : z) a = coord(g); if (g.chance(1, 3)){ z[4] = z[0] + g.range(-3, 3) * 4096; z[5] = z[1] + g.range(-3, 3) * 4096; z[4] = lim(z[4]); z[5] = lim(z[5]); } s = strf("BGCOPY %d", lb); for (fx a : z) s += "," + n_(a);
				int i[6]; for (int a = 0; a < 6; ++a) i[a] = clampi(z[a] >> 12); if (i[0] > i[2]) std::swap(i[0], i[2]); if (i[1] > i[3]) std::swap(i[1], i[3]);
				Layer o = q; for (int y = i[1]; y <= i[3]; ++y) for (int x = i[0]; x <= i[2]; ++x){ int X = x - i[0] + i[4], Y = y - i[1] + i[5]; if (X < 64 && Y < 64) q.t[Y][X] = o.t[y][x]; } ++copies; break; }
			case 3: { int pg = g.below(2); if (g.chance(1, 20)){ pg = g.chance(1, 2) ? 2 : -1; err = true; } else err = false; s = strf("BGPAGE %d", pg); U.page = pg; break; }
			case 4: { if (g.chance(1, 3)){ s = "BGCLR"; err = false; memset(U.cur(0).t, 0, 8192); memset(U.cur(1).t, 0, 8192); } else { s = strf("BGCLR %d", lb); memset(q.t, 0, 8192); } break; }
			case 5: { int z[4] = {g.range(0, 31), g.range(0, 23), g.range(0, 31), g.range(0, 23)}; err = false; if (g.chance(1, 10)){ int a = g.below(4); z[a] = g.chance(1, 2) ? -1 : a % 2 ? 24 : 32; err = true; } s = strf("BGCLIP %d,%d,%d,%d", z[0], z[1], z[2], z[3]); break; }
			case 6: { fx x = g.chance(1, 2) ? gen_int_fx(g, -512, 512) : lim(gen_fx(g)), y = g.chance(1, 2) ? gen_int_fx(g, -512, 512) : lim(gen_fx(g)); s = strf("BGOFS %d,", lb) + n_(x) + "," + n_(y); int t = 0;
				if (g.chance(2, 3)){ t = g.weighted({2, 8, 4, 1, 1}); t = t == 0 ? 0 : t == 1 ? g.range(1, 12) : t == 2 ? g.range(1, 120) : t == 3 ? g.range(1, 524287) : -1; if (t < 0) err = true; s += strf(",%d", t); }
				if (t > 0){ q.sx = q.x; q.sy = q.y; q.tx = x; q.ty = y; q.time = q.left = t; ++timed; } else { q.x = x; q.y = y; q.left = 0; } break; }
			case 7: { fx x = coord(g), y = coord(g); tile = q.t[(y >> 12) & 63][(x >> 12) & 63]; std::string pos = strf("(%d,", lb) + n_(x) + "," + n_(y) + ")"; std::string w = "BGREAD" + pos; size_t rs = reads.size(); int nr0 = nr, ns0 = ns;
				switch (g.below(3)){ case 0: s = w + "," + rnum(w, 0); reads.back().n = (fx)((uint32_t)tile << 12); break;
					case 1: { reads.push_back({w, ns++, true, gwiden(mstr(hex4(tile, 4))), 0}); s = w + strf(",R$[%d]", ns - 1); break; }
					default: s = w + "," + rnum(w + " chr", tile & 1023); s += "," + rnum(w + " pal", tile >> 12); s += "," + rnum(w + " h", tile >> 10 & 1); s += "," + rnum(w + " v", tile >> 11 & 1); }
				if (err || s.size() > 99) reads.resize(rs), nr = nr0, ns = ns0; break; }
			case 8: { std::string w = strf("BGCHK(%d)", lb); int r = W.cur(l).left > 0; if (err) s = "Z=" + w; else s = rnum(w, r) + "=" + w; break; }
			case 9: { err = false; if (!P.empty()) check(); int n = g.weighted({6, 3, 1}); n = n == 0 ? g.range(1, 3) : n == 1 ? g.range(1, 30) : g.range(1, 300);
				for (int f = 0; f < n; ++f){ sh_frame(); for (auto& a : W.L) for (Layer& b : a) if (b.left && --b.left == 0) b.x = b.tx, b.y = b.ty; if (f < 3 || n - f < 3) state(); } all += strf("' %d frames\r", n); c.text = show(all); note_text(c.text); state(); c.label("frames", n); continue; }
			case 10: if (g.chance(1, 3)){ s = "ACLS"; err = false; U = World(); other = true; break; } // fall through
			default: err = false; other = true; s = g.pick({"CLS", "GCLS", "SPCLR", "GPAGE 1", "SPPAGE 1", "BGREAD(0,1,1),Z", "GPAGE 0", "SPPAGE 0"}); break;
		}
		if (s.size() > 99){ c.label("discarded statement: too long"); continue; }
		if (!err) W = U; else want = ERR_OUT_OF_RANGE;
		P += s + "\r"; all += s + "\r"; ++cmds; if (err){ c.label("statement with an argument out of range"); P += "BGCLR\r"; check(); } else if (g.chance(1, 15)) check();
	}
	c.text = show(all); note_text(c.text); if (!P.empty()) check();
	if (!other){ sh_digest(d1); for (int i : {0, 1, 3, 4, 5}) if (d0[i] != d1[i]) c.fail("the background statements changed other state (part %d)", i); }
	c.label("BG statements", cmds); c.label("BGCOPY", copies); c.label("timed BGOFS", timed); c.nontrivial(cmds >= 3);
}
}
const Prop the_prop = {"P12", run_case, 40000, 2000000,
	"One case = a history of up to 70 statements BGPUT, BGFILL, BGCOPY, BGPAGE, BGCLR, BGCLIP, BGOFS, BGREAD, BGCHK, ACLS with coordinates on, across and off the map and all tile notations, in one or several programs, with frames between them. After each program and in the frames all 16384 tiles (also their place in the screen resource), scroll positions, read values and the error are compared with a grid model. Non-trivial: at least three statements.", nullptr};

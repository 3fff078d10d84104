// P13: graphics pages against a plain pixel model.
#include "model.h"
#include <cmath>
extern "C" void sh_digest(uint64_t[6]);
namespace {
enum { W = 256, H = 192, N = W * H };
fx lim(fx v){ return v <= -(524287 << 12) ? -(524287 << 12) : v; }
struct Page { uint8_t d[N]; static int at(int x, int y){ return (x & 7) + (y & 7) * 8 + (x / 8 % 8) * 64 + (y / 8 % 8) * 512 + x / 64 * 4096 + y / 64 * 16384; }
	static bool in(int x, int y){ return x >= 0 && x < W && y >= 0 && y < H; }
	uint8_t get(int x, int y) const { return d[at(x, y)]; } void put(int x, int y, int c, bool xm){ if (in(x, y)){ if (xm) d[at(x, y)] ^= c; else d[at(x, y)] = (uint8_t)c; } } };
struct World { Page p[4]; int screen, draw[2], disp[2], color; bool xm; World(){ memset(this, 0, sizeof *this); draw[1] = disp[1] = 1; } Page& cur(){ return p[draw[screen]]; } };
struct Read { std::string what; int idx; fx n; };
World M, Snap; uint8_t chr[6][32]; // characters 0..5 of BGU0U
int focus_x, focus_y;
fx cx(G& g, int size, int focus){ fx v; switch (g.weighted({10, 6, 3, 3, 1})){ case 0: v = gen_int_fx(g, focus, focus + 24); break; case 1: v = gen_int_fx(g, 0, size - 1); break; case 2: v = (fx)((uint32_t)g.pick({0, size - 1, size, -1, size + 1, 1, 63, 64}) << 12); break; case 3: v = gen_int_fx(g, -300, 600); break; default: v = g.chance(1, 2) ? gen_int_fx(g, -2000, 2000) : lim(gen_fx(g)); }
	if (g.chance(1, 15)) v = lim((fx)(((uint32_t)v & ~4095u) + g.below(4096))); return v; }
fx gx(G& g){ return cx(g, W, focus_x); } fx gy(G& g){ return cx(g, H, focus_y); }
std::string n_(fx v){ return num_lit(v); }
int cl(int v, int hi){ return v < 0 ? 0 : v > hi ? hi : v; }
void run_case(G& g, Case& c){
	sh_new(64, 128, 4096); run_prog("DIM R[600]\r"); M = World(); std::vector<Read> reads; focus_x = g.range(0, 250); focus_y = g.range(0, 188); int used[4]; { static const int pals[] = {0, 1, 2, 15}; for (int i = 0; i < 4; ++i) used[i] = g.chance(1, 3) ? (int)g.below(256) : pals[i]; }
	std::string P, all; int want = 0, nr = 0, cmds = 0; uint64_t d0[6], d1[6]; sh_digest(d0); bool other = false, chrset = false;
	auto state = [&](){ for (int q = 0; q < 4; ++q){ const uint8_t* r = sh_grp_raw(q); if (!memcmp(r, M.p[q].d, N)) continue; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x){ if (r[Page::at(x, y)] != M.p[q].get(x, y)) c.fail("page %d pixel %d,%d is %d, expected %d", q, x, y, r[Page::at(x, y)], M.p[q].get(x, y)); } } };
	auto exec = [&](){ c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str()); want = 0; };
	auto check = [&](){ exec(); state(); for (auto& r : reads){ fx v; sh_anum("R", r.idx, -1, &v); if (v != r.n) c.fail("%s is %s, expected %s", r.what.c_str(), fxs(v).c_str(), fxs(r.n).c_str()); } reads.clear(); };
	// run one statement alone, the other pages must stay; returns the page as it is now
	auto alone = [&](const std::string& s, int& e){ if (!P.empty()) check(); all += s + "\r"; c.text = show(all); note_text(c.text); e = run_prog(s + "\r"); int dp = M.draw[M.screen]; for (int q = 0; q < 4; ++q) if (q != dp && memcmp(sh_grp_raw(q), M.p[q].d, N)) c.fail("%s changes page %d", s.c_str(), q); const uint8_t* r = sh_grp_raw(dp); Page o; memcpy(o.d, r, N); return o; };
	std::string next;
	for (int k = 0; g.item(k, 1, 40, 19, 20) && nr < 590; ++k){
		std::string s; bool err = false; int col = used[g.below(4)]; std::string cs; int ec = M.color; bool hascol = g.chance(2, 3), badcol = hascol && g.chance(1, 40);
		if (hascol){ cs = strf(",%d", badcol ? (g.chance(1, 2) ? -1 : 256) : col); ec = col; }
		int op = g.weighted({6, 6, 6, 8, 3, 6, 8, 2, 2, 3, 4, 8, 4, 1, 1, 3}); bool aim = !next.empty(); next.clear(); if (aim) op = 5; World& U = M; int werr = ERR_OUT_OF_RANGE;
		if (op == 3){ // GLINE
			fx a = gx(g), b = gy(g), a2 = gx(g), b2 = gy(g); int x1 = a >> 12, y1 = b >> 12, x2 = a2 >> 12, y2 = b2 >> 12;
			s = "GLINE " + n_(a) + "," + n_(b) + "," + n_(a2) + "," + n_(b2) + cs; if (s.size() > 98) continue; int e; Page& o = M.cur(); Page n = alone(s, e); ++cmds; c.label("GLINE");
			if (badcol){ if (e != ERR_OUT_OF_RANGE) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str()); state(); continue; } if (e) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str());
			bool hor = std::abs((int64_t)x2 - x1) >= std::abs((int64_t)y2 - y1); int64_t m1 = hor ? x1 : y1, m2 = hor ? x2 : y2, o1 = hor ? y1 : x1, o2 = hor ? y2 : x2; if (m1 > m2) std::swap(m1, m2), std::swap(o1, o2); int msz = hor ? W : H, osz = hor ? H : W; int last = INT32_MIN;
			for (int m = 0; m < msz; ++m){ bool on = m >= m1 && m <= m2; int found = -1; for (int q = 0; q < osz; ++q){ int x = hor ? m : q, y = hor ? q : m; if (o.get(x, y) == n.get(x, y)) continue; if (!on || found >= 0) c.fail("%s changes pixel %d,%d", s.c_str(), x, y); found = q; if (n.get(x, y) != (M.xm ? o.get(x, y) ^ ec : ec)) c.fail("%s makes pixel %d,%d %d", s.c_str(), x, y, n.get(x, y)); }
				if (!on){ continue; } double ideal = m1 == m2 ? o1 : o1 + (double)(o2 - o1) * (m - m1) / (m2 - m1), tol = 0.5 + (m - m1) / 4096.0 + 1e-6;
				if (found >= 0){ if (std::fabs(found - ideal) > tol) c.fail("%s paints pixel %d,%d, %f away from the line", s.c_str(), hor ? m : found, hor ? found : m, std::fabs(found - ideal)); if (last != INT32_MIN && std::abs(last - found) > 1) c.fail("%s has a gap at %d", s.c_str(), m); last = found; }
				else { last = INT32_MIN; bool ok = false; for (int q = (int)std::ceil(ideal - tol); q <= ideal + tol; ++q){ if (q < 0 || q >= osz){ ok = true; break; } int x = hor ? m : q, y = hor ? q : m; if (M.xm ? ec == 0 : n.get(x, y) == ec) ok = true; } if (!ok) c.fail("%s paints no pixel at %s %d", s.c_str(), hor ? "x" : "y", m); } }
			if (M.xm){ int e2; Page save = o; M.cur() = n; Page n2 = alone(s, e2); if (memcmp(n2.d, save.d, N)) c.fail("%s twice in XOR mode changes the page", s.c_str()); M.cur() = save; } else M.cur() = n;
			continue; }
		if (op == 4){ // GCIRCLE
			fx a = gx(g), b = gy(g); int r = g.weighted({8, 4, 1}); r = r == 0 ? g.range(0, 40) : r == 1 ? g.range(0, 300) : g.range(0, 20000); int X = a >> 12, Y = b >> 12; if (X < -100000 || X > 100000 || Y < -100000 || Y > 100000) continue;
			s = "GCIRCLE " + n_(a) + "," + n_(b) + strf(",%d", r) + cs; if (s.size() > 98) continue; int e; Page& o = M.cur(); Page n = alone(s, e); ++cmds; c.label("GCIRCLE");
			if (badcol){ if (e != ERR_OUT_OF_RANGE) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str()); state(); continue; } if (e) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str());
			if (!M.xm){
				for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) if (o.get(x, y) != n.get(x, y)){ double d = std::sqrt((double)(x - X) * (x - X) + (double)(y - Y) * (y - Y)) - r; if (n.get(x, y) != ec || d > 2.2 || d < -2.7) c.fail("%s makes pixel %d,%d %d (%f from the circle)", s.c_str(), x, y, n.get(x, y), d); }
				int steps = 8 * r + 8; if (steps > 200000) steps = 200000; for (int i = 0; i < steps; ++i){ double w = 6.283185307 * i / steps, px = X + r * std::cos(w), py = Y + r * std::sin(w); if (px < 4 || py < 4 || px > W - 5 || py > H - 5) continue; int ix = (int)px, iy = (int)py; bool ok = false; for (int y = iy - 2; y <= iy + 3 && !ok; ++y) for (int x = ix - 2; x <= ix + 3; ++x) if (n.get(x, y) == ec) ok = true; if (!ok) c.fail("%s has a gap near %d,%d", s.c_str(), ix, iy); }
				if (r >= 5 && X - r > 1 && Y - r > 1 && X + r < W - 2 && Y + r < H - 2 && n.get(X, Y) != ec){ // closed: a 4-connected fill from the center does not get out
					std::vector<int> st{X + Y * W}; std::vector<bool> seen(N); seen[st[0]] = true; while (!st.empty()){ int v = st.back(); st.pop_back(); int x = v % W, y = v / W; if (x < X - r - 3 || x > X + r + 3 || y < Y - r - 3 || y > Y + r + 3 || x == 0 || y == 0 || x == W - 1 || y == H - 1) c.fail("%s is not closed", s.c_str()); static const int D[4] = {1, -1, W, -W}; for (int q : D) if (!seen[v + q] && n.get((v + q) % W, (v + q) / W) != ec){ seen[v + q] = true; st.push_back(v + q); } } c.label("GCIRCLE closed"); }
				M.cur() = n;
			} else { int e2; Page save = o; M.cur() = n; Page n2 = alone(s, e2); if (memcmp(n2.d, save.d, N)) c.fail("%s twice in XOR mode changes the page", s.c_str()); M.cur() = save; }
			continue; }
		if (op == 5){ // GPAINT
			fx a = gx(g), b = gy(g); if (aim) a = focus_x << 12, b = focus_y << 12; int X = a >> 12, Y = b >> 12; int bd = -1, badb = 0; s = "GPAINT " + n_(a) + "," + n_(b) + cs; if (hascol && g.chance(1, 2)){ bd = used[g.below(4)]; if (!badcol && g.chance(1, 30)) badb = 1; s += strf(",%d", badb ? 256 : bd); } if (s.size() > 98) continue;
			if (!Page::in(X, Y) && (badcol || badb)) continue; int e; Page& o = M.cur(); Page n = alone(s, e); ++cmds; c.label("GPAINT");
			if (badcol || badb){ if (e != ERR_OUT_OF_RANGE) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str()); state(); continue; }
			std::vector<bool> in(N); int area = 0; if (Page::in(X, Y)){ int mc = o.get(X, Y); auto ok = [&](int x, int y){ return bd >= 0 ? o.get(x, y) != bd : o.get(x, y) == mc; }; std::vector<int> st; auto add = [&](int x, int y){ if (Page::in(x, y) && !in[x + y * W] && ok(x, y)) in[x + y * W] = true, ++area, st.push_back(x + y * W); }; add(X, Y); while (!st.empty()){ int v = st.back(); st.pop_back(); add(v % W + 1, v / W); add(v % W - 1, v / W); add(v % W, v / W + 1); add(v % W, v / W - 1); } }
			if (e == ERR_PAINT_STACK_OVERFLOW){ int runs = 0; for (int v = 0; v < N; ++v) runs += in[v] && (v % W == 0 || !in[v - 1]); if (runs < 80) c.fail("%s reports a stack overflow for an area of %d runs", s.c_str(), runs); c.label("GPAINT too complex"); } else if (e) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str());
			for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x){ bool ch = o.get(x, y) != n.get(x, y); if (ch && (!in[x + y * W] || n.get(x, y) != ec)) c.fail("%s makes pixel %d,%d %d (%s the area)", s.c_str(), x, y, n.get(x, y), in[x + y * W] ? "in" : "outside"); if (!e && in[x + y * W] && n.get(x, y) != ec) c.fail("%s leaves pixel %d,%d %d", s.c_str(), x, y, n.get(x, y)); }
			if (area > 1) c.label("GPAINT several pixels"); M.cur() = n; continue; }
		if (op == 15){ // an area of noise, as a loaded picture could have
			if (g.chance(1, 5)){ // teeth on both sides of a line, many areas for GPAINT to come back to
				if (!P.empty()) check(); int x0 = g.chance(1, 2) ? 0 : g.below(100), w = g.chance(1, 2) ? W - x0 : g.range(20, W - x0), y0 = g.chance(1, 2) ? 0 : g.below(60), h = g.range(3, H - y0), sp = y0 + g.below(h), a = used[g.below(4)], b = used[g.below(4)], q = M.draw[M.screen], tip = g.below(4), dir = g.below(2);
				for (int y = y0; y < y0 + h; ++y) for (int x = x0; x < x0 + w; ++x){ int u = dir ? y - y0 : x - x0, v = dir ? x - x0 - w / 2 : y - sp; M.p[q].put(x, y, v == 0 ? a : tip == 3 && v % 4 == 0 ? a : tip == 2 && (u & 3) == 3 ? a : u & 1 ? b : a, false); }
				focus_x = x0 + w / 2; focus_y = dir ? y0 + h / 2 : sp; memcpy(sh_grp_raw(q), M.p[q].d, N); all += strf("' teeth of %d and %d at %d,%d size %d,%d kind %d%d line %d\r", a, b, x0, y0, w, h, tip, dir, sp); c.label("teeth");
				if (g.chance(2, 3)) next = "GPAINT"; continue; }
			if (!P.empty()) check(); int w = g.range(4, 60), h = g.range(4, 60), x0 = cl(focus_x + g.range(-20, 10), W - 1), y0 = cl(focus_y + g.range(-20, 10), H - 1), den = g.range(1, 7), a = used[g.below(4)], b = used[g.below(4)], q = M.draw[M.screen]; uint32_t r = g.bits() | 1;
			for (int y = y0; y < y0 + h && y < H; ++y) for (int x = x0; x < x0 + w && x < W; ++x){ r ^= r << 13; r ^= r >> 17; r ^= r << 5; M.p[q].put(x, y, (int)(r >> 8 & 7) < den ? a : b, false); } memcpy(sh_grp_raw(q), M.p[q].d, N); all += strf("' noise of %d and %d at %d,%d size %d,%d\r", a, b, x0, y0, w, h); c.label("noise"); continue; }
		Snap = M;
		switch (op){
			case 0: { fx a = gx(g), b = gy(g); s = "GPSET " + n_(a) + "," + n_(b) + cs; int x = a >> 12, y = b >> 12; if (!Page::in(x, y) && badcol) continue; err = badcol; U.cur().put(x, y, ec, U.xm); break; }
			case 1: case 2: { fx a = gx(g), b = gy(g), a2 = gx(g), b2 = gy(g); int x1 = cl(a >> 12, W), y1 = cl(b >> 12, H), x2 = cl(a2 >> 12, W), y2 = cl(b2 >> 12, H); s = std::string(op == 1 ? "GBOX " : "GFILL ") + n_(a) + "," + n_(b) + "," + n_(a2) + "," + n_(b2) + cs; err = badcol; if (x1 > x2) std::swap(x1, x2); if (y1 > y2) std::swap(y1, y2);
				if (op == 2){ for (int y = y1; y <= y2; ++y) for (int x = x1; x <= x2; ++x) U.cur().put(x, y, ec, U.xm); if ((x2 - x1) * (y2 - y1) > 4) c.label("GFILL of an area"); }
				else if (!U.xm){ for (int y = y1; y <= y2; ++y) for (int x = x1; x <= x2; ++x) if (x == x1 || x == x2 || y == y1 || y == y2) U.cur().put(x, y, ec, false); }
				else { // where two sides meet, XOR may cancel
					if (badcol || s.size() > 98) continue; Page o = U.cur(); int e; Page n = alone(s, e); if (e) c.fail("%s ends with %s", s.c_str(), err_name(e).c_str()); ++cmds; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x){ int t = x >= x1 && x <= x2 && y >= y1 && y <= y2 ? (x == x1) + (x == x2) + (y == y1) + (y == y2) : 0; int df = o.get(x, y) ^ n.get(x, y); if (t == 0 ? df != 0 : t == 1 ? df != ec : df != 0 && df != ec) c.fail("%s in XOR mode makes pixel %d,%d %d", s.c_str(), x, y, n.get(x, y)); }
					M.cur() = n; Page n2 = alone(s, e); if (memcmp(n2.d, o.d, N)) c.fail("%s twice in XOR mode changes the page", s.c_str()); M.cur() = o; continue; } break; }
			case 6: { bool two = g.chance(1, 2); int sp = M.draw[M.screen]; s = "GCOPY "; if (two){ sp = g.below(4); if (g.chance(1, 40)){ err = true; s += g.pick({"4,", "-1,"}); } else s += strf("%d,", sp); } fx z[6]; for (int i = 0; i < 6; ++i) z[i] = i % 2 ? gy(g) : gx(g); if (g.chance(1, 3)){ z[4] = lim(z[0] + g.range(-5, 5) * 4096); z[5] = lim(z[1] + g.range(-5, 5) * 4096); } int md = g.below(2); for (fx v : z) s += n_(v) + ","; s += strf("%d", md);
				int64_t i[6]; for (int q = 0; q < 6; ++q) i[q] = z[q] >> 12; if (i[0] > i[2]) std::swap(i[0], i[2]); if (i[1] > i[3]) std::swap(i[1], i[3]); Page& src = Snap.p[sp]; Page& d = U.cur(); int ch = 0;
				for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x){ int64_t X = x - i[4] + i[0], Y = y - i[5] + i[1]; if (x < i[4] || y < i[5] || X > i[2] || Y > i[3]) continue; int v = X >= 0 && X < W && Y >= 0 && Y < H ? src.get((int)X, (int)Y) : 0; if (v || md) ch += d.get(x, y) != v, d.put(x, y, v, false); } if (ch) c.label("GCOPY changing pixels"); break; }
			case 7: { s = "GCLS" + (hascol ? " " + cs.substr(1) : ""); err = badcol; memset(U.cur().d, ec, N); break; }
			case 8: { s = "GCOLOR" + (hascol ? " " + cs.substr(1) : std::string(" 7")); err = badcol; U.color = hascol ? ec : 7; break; }
			case 9: { int sc = g.below(2); if (g.chance(1, 30)){ sc = g.pick({-1, 2}); err = true; } if (g.chance(1, 3)) s = strf("GPAGE %d", sc); else { int dp = g.below(4), vp = g.below(4); s = strf("GPAGE %d,%d,%d", sc, dp, vp); if (!err) U.draw[sc] = dp, U.disp[sc] = vp; } if (!err) U.screen = sc; break; }
			case 10: { int m = g.below(2); if (g.chance(1, 30)){ m = g.pick({-1, 2}); err = true; } s = strf("GDRAWMD %d", m); if (!err) U.xm = m; break; }
			case 11: { fx a = gx(g), b = gy(g); int x = a >> 12, y = b >> 12; std::string w = "GSPOIT("; int pg = M.draw[M.screen]; if (g.chance(1, 2)){ pg = g.below(4); if (g.chance(1, 40)){ err = true; pg = g.pick({4, -1}); } w += strf("%d,", pg); } w += n_(a) + "," + n_(b) + ")"; s = strf("R[%d]=", nr) + w; if (s.size() > 98) continue; if (!err) reads.push_back({w, nr++, Page::in(x, y) ? M.p[pg].get(x, y) << 12 : -4096}); break; }
			case 12: { // GPUTCHR
				int ch = g.below(6), pal = g.below(16), size = 1 << g.below(4); fx a = gx(g), b = gy(g); int x0 = a >> 12, y0 = b >> 12; if (!chrset){ other = chrset = true; std::string q; for (int i = 0; i < 6; ++i){ std::string h; for (int z = 0; z < 64; ++z) h += "0123456789ABCDEF"[g.below(16) * (i + z % 3 != 0)]; for (int z = 0; z < 32; ++z) chr[i][z] = (uint8_t)((strchr("0123456789ABCDEF", h[2 * z]) - "0123456789ABCDEF") | (strchr("0123456789ABCDEF", h[2 * z + 1]) - "0123456789ABCDEF") << 4); q += strf("CHRSET \"BGU0U\",%d,\"%s\"\r", i, h.c_str()); } if (!P.empty()) check(); P = q; all += q; check(); Snap = M; }
				int bad = g.chance(1, 20) ? g.range(1, 3) : 0; if (bad == 1){ size = g.pick({0, 3, 5, 16, -1}); werr = ERR_ILLEGAL_FUNCTION_CALL; } if (bad == 2) ch = g.pick({-1, 256}); if (bad == 3) pal = g.pick({-1, 16}); err = bad; s = "GPUTCHR " + n_(a) + "," + n_(b) + strf(",\"BGU0U\",%d,%d,%d", ch, pal, size); c.label("GPUTCHR");
				if (!err) for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x){ int v = x & 1 ? chr[ch][y * 4 + x / 2] >> 4 : chr[ch][y * 4 + x / 2] & 15; if (v) for (int i = 0; i < size; ++i) for (int j = 0; j < size; ++j){ int64_t X = (int64_t)x0 + x * size + j, Y = (int64_t)y0 + y * size + i; if (X >= 0 && X < W && Y >= 0 && Y < H) U.cur().put((int)X, (int)Y, pal * 16 + v, U.xm); } } break; }
			case 13: if (g.chance(1, 4)){ s = "ACLS"; other = true; memset(U.p[0].d, 0, N); memset(U.p[1].d, 0, N); for (int q = 0; q < 2; ++q) U.draw[q] = U.disp[q] = q; U.screen = U.color = 0; U.xm = false; break; } // fall through
			default: other = true; s = g.pick({"CLS", "BGCLR", "SPCLR", "GPRIO 2", "PRINT \"A\"", "BGPAGE 1", "SPPAGE 1"}); break;
		}
		if (s.size() > 98){ M = Snap; continue; }
		if (err){ M = Snap; want = werr; }
		P += s + "\r"; all += s + "\r"; ++cmds; if (err){ c.label("statement with an argument out of range"); P += "GCLS 99\r"; check(); } else if (g.chance(1, 12)) check();
	}
	c.text = show(all); note_text(c.text); if (!P.empty()) check(); state();
	if (!other){ sh_digest(d1); for (int i : {0, 2, 3, 4, 5}) if (d0[i] != d1[i]) c.fail("the graphics statements changed other state (part %d)", i); }
	c.label("graphics statements", cmds); c.nontrivial(cmds >= 3);
}
}
const Prop the_prop = {"P13", run_case, 30000, 1000000,
	"One case = a history of up to 40 statements GPSET, GLINE, GBOX, GFILL, GCLS, GCIRCLE, GPAINT, GCOPY, GPUTCHR, GCOLOR, GDRAWMD, GPAGE, GSPOIT with coordinates on, across and far off the page. All 4x49152 pixels (in their place in the resource), the read values and errors are compared with a pixel model; lines, circles and painted areas are checked by their definition. Non-trivial: at least three statements.", nullptr};

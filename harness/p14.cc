// P14: sprites against a model of each sprite alone.
#include "model.h"
#include <cmath>
extern "C" { void sh_sprite(int page, int id, int o[19]); int32_t sh_sprite_var(int page, int id, int i); void sh_digest(uint64_t[6]); }
namespace {
fx lim(fx v){ return v <= -(524287 << 12) ? -(524287 << 12) : v; }
// a value that moves from s to t in n frames; k frames have passed
struct Move { double s = 0, t = 0; int n = 0, k = 0; fx cur = 0; bool on() const { return n > 0; } double at() const { return s + (t - s) * k / n; } };
struct Spr { bool act = false; int chr = 0, pal = 0, w = 16, h = 16, prio = 0, fx_ = 0, fy = 0, hx = 0, hy = 0; Move x, y, a, s; bool anim = false, shown = false; int chrs = 1, per = 1, loop = 0; int64_t n = 0; int show_idx = 0; fx v[8] = {0}; fx aend = 0;
	int step() const { int q = w * h / 256; return q < 1 ? 1 : q; }
	int shown_chr() const { return shown ? chr + step() * show_idx : chr; }
	void frame(){ if (!act) return; for (Move* m : {&x, &y, &a, &s}) if (m->on() && ++m->k == m->n){ m->n = 0; m->cur = m == &a ? aend : (fx)m->t; }
		if (anim){ ++n; int64_t total = (int64_t)chrs * per; if (loop > 0 && n >= total * loop){ anim = false; show_idx = chrs - 1; } else show_idx = (int)(n / per % chrs); } } };
struct World { Spr s[2][100]; int page = 0; };
struct Read { std::string what; int idx; double lo, hi; bool mod; };
std::string n_(fx v){ return num_lit(v); }
void run_case(G& g, Case& c){
	sh_new(64, 128, 4096); run_prog("DIM R[600]\r"); static World W; W = World(); std::vector<Read> reads; std::string P, all; int want = 0, nr = 0, cmds = 0, frames = 0, timed = 0;
	uint64_t d0[6], d1[6]; sh_digest(d0); int pool[4]; for (int& i : pool) i = g.chance(1, 2) ? g.range(0, 31) : g.range(0, 99);
	static const char* fld[] = {"active", "character", "palette", "width", "height", "priority", "h flip", "v flip", "home x", "home y", "x", "y", "angle", "scale", "shown character", "moving", "rotating", "scaling", "animated"};
	auto near_ = [](const Move& m, fx v, bool mod){ if (!m.on()) return v == m.cur; double d = v - m.at(); if (mod){ d = std::fmod(d, 360.0 * 4096); if (d > 180 * 4096) d -= 360 * 4096; if (d < -180 * 4096) d += 360 * 4096; } return std::fabs(d) <= m.k + 1; };
	auto state = [&](){ for (int p = 0; p < 2; ++p) for (int i = 0; i < 100; ++i){ Spr& q = W.s[p][i]; int o[19]; sh_sprite(p, i, o); if (o[0] != q.act) c.fail("screen %d sprite %d is %s", p, i, o[0] ? "shown" : "not shown"); if (!q.act) continue;
		int w[19] = {1, q.chr, q.pal, q.w, q.h, q.prio, q.fx_, q.fy, q.hx, q.hy, 0, 0, 0, 0, q.shown_chr(), q.x.on(), q.a.on(), q.s.on(), q.anim};
		for (int k = 0; k < 19; ++k) if ((k < 10 || k > 13) && o[k] != w[k]) c.fail("screen %d sprite %d: %s is %d, expected %d", p, i, fld[k], o[k], w[k]);
		Move* m[4] = {&q.x, &q.y, &q.a, &q.s}; for (int k = 0; k < 4; ++k){ if (!near_(*m[k], o[10 + k], k == 2)) c.fail("screen %d sprite %d: %s is %s, expected %s%f", p, i, fld[10 + k], fxs(o[10 + k]).c_str(), m[k]->on() ? "about " : "", (m[k]->on() ? m[k]->at() : m[k]->cur) / 4096); m[k]->cur = o[10 + k]; }
		for (int k = 0; k < 8; ++k) if (sh_sprite_var(p, i, k) != q.v[k]) c.fail("screen %d sprite %d: variable %d is %s, expected %s", p, i, k, fxs(sh_sprite_var(p, i, k)).c_str(), fxs(q.v[k]).c_str()); } };
	auto check = [&](){ c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str()); want = 0; state();
		for (auto& r : reads){ fx v; sh_anum("R", r.idx, -1, &v); double d = v; if (r.mod && r.lo != r.hi){ while (d < r.lo) d += 360 * 4096; while (d > r.hi) d -= 360 * 4096; } if (d < r.lo || d > r.hi) c.fail("%s is %s, expected %f%s", r.what.c_str(), fxs(v).c_str(), r.lo / 4096, r.hi > r.lo ? " or near" : ""); } reads.clear(); };
	for (int k = 0; g.item(k, 1, 70, 24, 25) && nr < 580; ++k){
		std::string s; bool err = false; int werr = ERR_OUT_OF_RANGE; int id = g.chance(7, 8) ? pool[g.below(4)] : g.range(0, 99), idb = id; bool bad = g.chance(1, 60); if (bad){ idb = g.chance(1, 2) ? 100 : -1; err = true; }
		static World U; U = W; Spr& q = U.s[U.page][id]; const Spr& old = W.s[W.page][id]; int maxchr = U.page ? 117 : 511; size_t rs = reads.size(); int nr0 = nr; bool needs_active = true;
		auto rd = [&](const std::string& what, double lo, double hi, bool mod = false){ reads.push_back({what, nr++, lo, hi, mod}); return strf("R[%d]", nr - 1); };
		auto time_ = [&](){ switch (g.weighted({2, 8, 4, 1})){ case 0: return 0; case 1: return g.range(1, 12); case 2: return g.range(1, 100); default: return g.range(1, 524287); } };
		int op = g.weighted({8, 2, 3, 5, 8, 6, 6, 6, 3, 4, 8, 4, 4, 14, 1}); if (!old.act && op >= 3 && op <= 12 && g.chance(7, 8)) op = 0;
		switch (op){
			case 0: { needs_active = false; int z[8] = {idb, g.chance(1, 40) ? (g.chance(1, 2) ? maxchr + 1 : -1) : g.range(0, maxchr), g.chance(1, 60) ? g.pick({-1, 16}) : g.range(0, 15), (int)g.below(2), (int)g.below(2), g.chance(1, 60) ? g.pick({-1, 4}) : g.range(0, 3), 16, 16}; int n = 6; if (g.chance(1, 2)){ n = 8; static const int sz[] = {8, 16, 32, 64}; z[6] = sz[g.below(4)]; z[7] = sz[g.below(4)]; if (g.chance(1, 50)) z[6 + g.below(2)] = g.pick({0, 24, 128, -8, 7}); }
				auto szok = [](int v){ return v == 8 || v == 16 || v == 32 || v == 64; }; if (z[1] < 0 || z[1] > maxchr || z[2] < 0 || z[2] > 15 || z[5] < 0 || z[5] > 3 || !szok(z[6]) || !szok(z[7])) err = true;
				s = "SPSET "; for (int i = 0; i < n; ++i) s += strf("%s%d", i ? "," : "", z[i]); q = Spr(); q.act = true; q.chr = z[1]; q.pal = z[2]; q.fx_ = z[3]; q.fy = z[4]; q.prio = z[5]; q.w = z[6]; q.h = z[7]; q.s.cur = 4096; break; }
			case 1: needs_active = false; if (g.chance(1, 6)){ s = "SPCLR"; err = false; for (Spr& z : U.s[U.page]) z.act = false; } else { s = strf("SPCLR %d", idb); q.act = false; } break;
			case 2: { needs_active = false; int pg = g.below(2); err = false; if (g.chance(1, 30)){ pg = g.pick({-1, 2}); err = true; } s = strf("SPPAGE %d", pg); if (!err) U.page = pg; break; }
			case 3: { needs_active = false; int ch = g.chance(1, 30) ? g.pick({-1, maxchr + 1}) : g.range(0, maxchr); s = strf("SPCHR %d,%d", idb, ch); if (ch < 0 || ch > maxchr) err = true; if (!old.act) break; if (!q.anim) q.shown = false; q.chr = ch;
				if (g.chance(1, 2)){ int z[4] = {g.range(0, 15), (int)g.below(2), (int)g.below(2), g.range(0, 3)}; if (g.chance(1, 20)){ static const int mx[] = {15, 1, 1, 3}; int b = g.below(4); z[b] = g.chance(1, 2) ? -1 : mx[b] + 1; err = true; } s += strf(",%d,%d,%d,%d", z[0], z[1], z[2], z[3]); q.pal = z[0]; q.fx_ = z[1]; q.fy = z[2]; q.prio = z[3]; } break; }
			case 4: { fx x = g.chance(3, 4) ? gen_int_fx(g, -64, 320) : lim(gen_fx(g)), y = g.chance(3, 4) ? gen_int_fx(g, -64, 256) : lim(gen_fx(g)); if (g.chance(1, 8)) x = lim((fx)(((uint32_t)x & ~4095u) + g.below(4096))); s = strf("SPOFS %d,", idb) + n_(x) + "," + n_(y); int t = 0; if (g.chance(2, 3)){ t = time_(); if (g.chance(1, 40)){ t = -1; err = true; } s += strf(",%d", t); }
				x &= ~4095; y &= ~4095; if (t > 0){ q.x.s = q.x.cur; q.y.s = q.y.cur; q.x.t = x; q.y.t = y; q.x.n = q.y.n = t; q.x.k = q.y.k = 0; ++timed; } else { q.x.n = q.y.n = 0; q.x.cur = x; q.y.cur = y; } break; }
			case 5: { fx a = g.chance(3, 4) ? gen_int_fx(g, 0, 359) : g.chance(1, 2) ? gen_int_fx(g, -800, 800) : lim(gen_fx(g)); s = strf("SPANGLE %d,", idb) + n_(a); int t = 0, dir = 1; if (g.chance(2, 3)){ t = time_(); if (g.chance(1, 40)){ t = -1; err = true; } s += strf(",%d", t); if (g.chance(1, 2)){ dir = g.chance(1, 2) ? 1 : -1; if (g.chance(1, 40)){ dir = g.pick({0, 2, -2}); err = true; } s += strf(",%d", dir); } }
				int A = (a >> 12) % 360; if (t > 0){ int64_t diff = ((int64_t)A * 4096 - q.a.cur) % (360 * 4096); if (dir < 0 && diff < 0) diff += 360 * 4096; if (dir > 0 && diff > 0) diff -= 360 * 4096; q.a.s = q.a.cur; q.a.t = q.a.s + diff; q.a.n = t; q.a.k = 0; q.aend = A * 4096; ++timed; } else { q.a.n = 0; q.a.cur = A * 4096; } break; }
			case 6: { if (!bad && id > 31){ if (g.chance(3, 4)) continue; err = true; } int sc = g.chance(1, 30) ? g.pick({-1, 201}) : g.chance(1, 4) ? g.pick({0, 100, 200}) : g.range(0, 200); if (sc < 0 || sc > 200) err = true; s = strf("SPSCALE %d,%d", idb, sc); int t = 0; if (g.chance(2, 3)){ t = time_(); if (g.chance(1, 40)){ t = -1; err = true; } s += strf(",%d", t); } int v = sc * 4096 / 100; if (t > 0){ q.s.s = q.s.cur; q.s.t = v; q.s.n = t; q.s.k = 0; ++timed; } else { q.s.n = 0; q.s.cur = v; } break; }
			case 7: { needs_active = false; int ch = g.chance(1, 30) ? 0 : g.chance(1, 10) ? g.range(1, 600) : g.range(1, 8), pe = g.chance(1, 30) ? 0 : g.chance(1, 8) ? g.range(1, 600) : g.range(1, 6), lp = g.chance(1, 12) ? g.range(5, 400) : g.range(0, 4); if (lp > 4 && g.chance(3, 4)){ ch = g.range(1, 2); pe = 1; } if (ch < 1 || pe < 1) err = true; s = strf("SPANIM %d,%d,%d", idb, ch, pe); if (g.chance(3, 4)){ if (g.chance(1, 30)){ lp = -1; err = true; } s += strf(",%d", lp); } else lp = 0; if (!old.act) break; q.anim = q.shown = true; q.chrs = ch; q.per = pe; q.loop = lp; q.n = 0; q.show_idx = 0; ++timed; break; }
			case 8: { int x = g.range(-128, 127), y = g.range(-128, 127); s = strf("SPHOME %d,%d,%d", idb, x, y); q.hx = x; q.hy = y; break; }
			case 9: { int i = g.chance(1, 30) ? g.pick({-1, 8}) : g.range(0, 7); fx v = lim(gen_fx(g)); if (i < 0 || i > 7) err = true; s = strf("SPSETV %d,%d,", idb, i) + n_(v); if (!err) q.v[i] = v; break; }
			case 10: { if (!old.act && !bad) continue; int n = g.range(1, 5); s = strf("SPREAD(%d)", idb); std::string w = s; const Move* m[4] = {&old.x, &old.y, &old.a, &old.s}; if (bad){ s += ",Z"; needs_active = false; break; }
				for (int i = 0; i < n; ++i){ if (i == 4){ s += "," + rd(w + " character", old.chr * 4096.0, old.chr * 4096.0); continue; } double lo = m[i]->cur, hi = lo; if (m[i]->on()){ lo = m[i]->at() - m[i]->k - 1; hi = m[i]->at() + m[i]->k + 1; } if (i < 2) lo = std::floor(lo / 4096) * 4096, hi = std::floor(hi / 4096) * 4096; static const char* nm[] = {" x", " y", " angle", " scale"}; s += "," + rd(w + nm[i], lo, hi, i == 2); } break; }
			case 11: { if (!old.act && !bad) continue; needs_active = false; s = strf("SPCHK(%d)", idb); double v = (int)(old.x.on() | old.a.on() << 1 | old.s.on() << 2 | old.anim << 3) * 4096.0; s = rd(s, v, v) + "=" + s; break; }
			case 12: { int i = g.chance(1, 30) ? g.pick({-1, 8}) : g.range(0, 7); if (i < 0 || i > 7) err = true; std::string w = strf("SPGETV(%d,%d)", idb, i); double v = i < 0 || i > 7 ? 0 : old.v[i]; s = rd(w, v, v) + "=" + w; break; }
			case 13: { if (!P.empty()) check(); else state(); int n = g.weighted({6, 3, 1}); n = n == 0 ? g.range(1, 3) : n == 1 ? g.range(1, 30) : g.range(1, 300); for (int f = 0; f < n; ++f){ sh_frame(); for (auto& p : W.s) for (Spr& z : p) z.frame(); if (f < 4 || n - f < 4) state(); } frames += n; all += strf("' %d frames\r", n); c.text = show(all); note_text(c.text); state(); continue; }
			default: err = false; needs_active = false; s = g.pick({"CLS", "BGCLR", "GCLS", "GPAGE 1", "BGPAGE 1", "ACLS"}); if (s == "ACLS"){ for (auto& p : U.s) for (Spr& z : p) z.act = false; U.page = 0; } d0[0] = 0; break;
		}
		if (needs_active && !old.act && !err){ err = true; werr = ERR_ILLEGAL_FUNCTION_CALL; c.label("statement on an undefined sprite"); }
		else if (needs_active && !old.act && err) { reads.resize(rs); nr = nr0; continue; } // which error comes first is not specified
		if (s.size() > 98){ reads.resize(rs); nr = nr0; continue; }
		if (err){ reads.resize(rs); nr = nr0; } else W = U;
		if (err) want = werr;
		P += s + "\r"; all += s + "\r"; ++cmds; if (err){ c.label("statement with an error"); P += "SPCLR\r"; check(); } else if (g.chance(1, 15)) check();
	}
	c.text = show(all); note_text(c.text); if (!P.empty()) check();
	if (d0[0]){ sh_digest(d1); for (int i : {0, 1, 2, 4, 5}) if (d0[i] != d1[i]) c.fail("the sprite statements changed other state (part %d)", i); }
	c.label("sprite statements", cmds); c.label("timed operations", timed); c.label("frames", frames); c.nontrivial(cmds >= 3 && frames > 0);
}
}
const Prop the_prop = {"P14", run_case, 40000, 2000000,
	"One case = a history of up to 70 statements SPSET, SPCLR, SPPAGE, SPCHR, SPOFS, SPANGLE, SPSCALE, SPANIM, SPHOME, SPSETV, SPREAD, SPCHK, SPGETV on a few or any of the 2x100 sprites, with frames between them. After each program and in the frames all attributes of all 200 sprites, the read values and the error are compared with a model of each sprite. Non-trivial: at least three statements and one frame.", nullptr};

// P15: sprite collisions against geometry.
#include "model.h"
extern "C" { void sh_sprite(int page, int id, int o[19]); }
namespace {
typedef __int128 i128;
struct Box { bool act = false; int w = 16, h = 16; int hx = 0, hy = 0, hw = 16, hh = 16, mask = 255; bool sc = false; int vx = 0, vy = 0; bool moving = false; double mvx = 0, mvy = 0; int left = 0; bool inexact = false; };
// Does A, moved by t*v for some t in [0,1], touch B (both closed)?  Slab method.
// all lengths in 1/4096 pixel, grown by e on every side
bool touches(const int64_t a[4], const int64_t b[4], const int64_t v[2], int64_t e){
	i128 ln = 0, ld = 1, hn = 1, hd = 1; // t between ln/ld and hn/hd
	for (int k = 0; k < 2; ++k){
		i128 hi = (i128)b[2 + k] - a[k] + e, lo = (i128)b[k] - a[2 + k] - e; // lo <= t*v <= hi
		if (lo > hi) return false;
		if (v[k] == 0){ if (lo > 0 || hi < 0) return false; continue; }
		i128 d = v[k]; if (d < 0){ d = -d; i128 q = lo; lo = -hi; hi = -q; }
		if (lo * ld > ln * d) ln = lo, ld = d;
		if (hi * hd < hn * d) hn = hi, hd = d;
	}
	return ln * hd <= hn * ld;
}
// 1 hit, 0 no hit, -1 depends on rounding
int expect(const Box& p, const int po[19], const Box& q, const int qo[19]){
	if (!p.act || !q.act || !(p.mask & q.mask)) return 0;
	bool exact = true; int64_t r[2][4]; double v[2][2]; const Box* x[2] = {&p, &q}; const int* o[2] = {po, qo};
	for (int i = 0; i < 2; ++i){ const Box& b = *x[i]; int64_t s = b.sc ? o[i][13] : 4096; int64_t c[4] = {b.hx, b.hy, b.hx + b.hw, b.hy + b.hh}; for (int k = 0; k < 4; ++k){ r[i][k] = c[k] * s + o[i][10 + k % 2]; } // c*s is exact: c whole pixels, s in 1/4096
		if (b.vx || b.vy){ v[i][0] = b.vx * 4096.0; v[i][1] = b.vy * 4096.0; } else if (b.moving){ v[i][0] = b.mvx; v[i][1] = b.mvy; if (b.mvx != (int64_t)b.mvx || b.mvy != (int64_t)b.mvy) exact = false; } else v[i][0] = v[i][1] = 0; }
	int64_t vi[2]; for (int k = 0; k < 2; ++k){ double d = v[0][k] - v[1][k]; vi[k] = (int64_t)d; }
	if (exact) return touches(r[0], r[1], vi, 0);
	bool a = touches(r[0], r[1], vi, 8), b = touches(r[0], r[1], vi, -8); return a == b ? a : -1;
}
struct Read { std::string what; int idx, lo; };
void run_case(G& g, Case& c){
	sh_new(64, 128, 4096); run_prog("DIM R[800]\r"); static Box B[2][100]; for (auto& p : B) for (Box& b : p) b = Box(); int page = 0; std::string P, all; std::vector<Read> reads; int nr = 0, queries = 0, hits = 0, skipped = 0, moved = 0; int cx = g.range(-200, 300), cy = g.range(-200, 300);
	int pool[6]; for (int& i : pool) i = g.chance(1, 2) ? g.range(0, 31) : g.range(0, 99); int far_ = g.chance(1, 8) ? g.pick({5000, 20000}) : g.pick({12, 30, 60, 200});
	static int o[100][19]; auto snap = [&](){ for (int i = 0; i < 100; ++i) sh_sprite(page, i, o[i]); };
	auto flush = [&](int want){ c.text = show(all); note_text(c.text); if (P.empty()) return; int e = run_prog(P); P.clear(); if (e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), err_name(want).c_str());
		for (auto& r : reads){ fx v; sh_anum("R", r.idx, -1, &v); if (v != r.lo << 12) c.fail("%s is %s, expected %d", r.what.c_str(), fxs(v).c_str(), r.lo); } reads.clear(); };
	auto stmt = [&](const std::string& s){ P += s + "\r"; all += s + "\r"; };
	for (int k = 0; g.item(k, 2, 60, 24, 25) && nr < 780; ++k){
		int id = g.chance(9, 10) ? pool[g.below(6)] : g.range(0, 99); Box& b = B[page][id]; int op = g.weighted({6, 8, 6, 4, 4, 14, 12, 4, 1, 1}); if (!b.act && op >= 1 && op <= 4) op = 0;
		switch (op){
			case 0: { static const int sz[] = {8, 16, 32, 64}; int w = 16, h = 16; std::string t; if (g.chance(1, 2)){ w = sz[g.below(4)]; h = sz[g.below(4)]; t = strf(",%d,%d", w, h); } stmt(strf("SPSET %d,%d,0,0,0,0%s", id, g.range(0, 117), t.c_str())); b = Box(); b.act = true; b.hw = w; b.hh = h; stmt(strf("SPOFS %d,%d,%d", id, cx + g.range(-far_, far_), cy + g.range(-far_, far_))); break; }
			case 1: { int x = cx + g.range(-far_, far_), y = cy + g.range(-far_, far_); if (g.chance(1, 3)){ int t = g.range(0, 20); flush(0); snap(); stmt(strf("SPOFS %d,%d,%d,%d", id, x, y, t)); b.moving = t > 0; b.left = t; if (t){ b.mvx = ((double)x * 4096 - o[id][10]) / t; b.mvy = ((double)y * 4096 - o[id][11]) / t; ++moved; } } else { stmt(strf("SPOFS %d,%d,%d", id, x, y)); b.moving = false; } break; }
			case 2: { int z[5] = {g.chance(1, 2) ? g.range(-20, 20) : g.range(-128, 127), g.chance(1, 2) ? g.range(-20, 20) : g.range(-128, 127), g.chance(2, 3) ? g.range(0, 40) : g.range(0, 255), g.chance(2, 3) ? g.range(0, 40) : g.range(0, 255), (int)g.below(2)}; std::string m; int mask = 255; if (g.chance(1, 2)){ mask = g.chance(1, 2) ? 1 << g.below(8) : g.below(256); m = strf(",%d", mask); } if (g.chance(1, 40)){ static const int lo[] = {-129, -129, -1, -1, -1}, hi[] = {128, 128, 256, 256, 2}; int q = g.below(5); flush(0); z[q] = g.chance(1, 2) ? lo[q] : hi[q]; stmt(strf("SPCOL %d,%d,%d,%d,%d,%d%s", id, z[0], z[1], z[2], z[3], z[4], m.c_str())); flush(ERR_OUT_OF_RANGE); c.label("SPCOL out of range"); break; }
				stmt(strf("SPCOL %d,%d,%d,%d,%d,%d%s", id, z[0], z[1], z[2], z[3], z[4], m.c_str())); b.hx = z[0]; b.hy = z[1]; b.hw = z[2]; b.hh = z[3]; b.sc = z[4]; b.mask = mask; break; }
			case 3: { int x = g.chance(1, 4) ? 0 : g.chance(1, 2) ? g.range(-10, 10) : g.range(-128, 127), y = g.chance(1, 4) ? 0 : g.chance(1, 2) ? g.range(-10, 10) : g.range(-128, 127); stmt(strf("SPCOLVEC %d,%d,%d", id, x, y)); b.vx = x; b.vy = y; break; }
			case 4: { if (id > 31) continue; int s = g.chance(1, 3) ? g.pick({0, 50, 100, 200, 25}) : g.range(0, 200); std::string t = g.chance(1, 4) ? strf(",%d", g.range(0, 12)) : ""; stmt(strf("SPSCALE %d,%d%s", id, s, t.c_str())); break; }
			case 5: { int other = g.chance(9, 10) ? pool[g.below(6)] : g.range(0, 99); if (other == id) continue; flush(0); snap(); int w = expect(B[page][id], o[id], B[page][other], o[other]); if (w < 0){ ++skipped; continue; } ++queries; hits += w; if (B[page][id].act && B[page][other].act) c.label(w ? "pair of sprites: hit" : "pair of sprites: no hit");
				stmt(strf("R[%d]=SPHITSP(%d,%d)", nr, id, other)); reads.push_back({strf("SPHITSP(%d,%d)", id, other), nr++, w}); stmt(strf("R[%d]=SPHITSP(%d,%d)", nr, other, id)); reads.push_back({strf("SPHITSP(%d,%d)", other, id), nr++, w}); flush(0); break; }
			case 6: { flush(0); snap(); int start = g.chance(1, 2) ? -1 : g.chance(1, 2) ? pool[g.below(6)] : g.range(0, 99); int first = -1; bool unsure = false; for (int i = std::max(start, 0); i < 100 && first < 0; ++i){ if (i == id) continue; int w = expect(B[page][id], o[id], B[page][i], o[i]); if (w < 0) unsure = true; if (w > 0) first = i; } if (unsure){ ++skipped; continue; } ++queries; hits += first >= 0;
				std::string f = start < 0 ? strf("SPHIT(%d)", id) : strf("SPHIT(%d,%d)", id, start); stmt(strf("R[%d]=%s", nr, f.c_str())); reads.push_back({f, nr++, first >= 0}); if (first >= 0){ stmt(strf("R[%d]=SPHITNO", nr)); reads.push_back({"SPHITNO after " + f, nr++, first}); c.label("SPHIT reports a sprite"); } else if (b.act) c.label("SPHIT reports none"); flush(0); break; }
			case 7: { flush(0); int n = g.range(1, 25); for (int f = 0; f < n; ++f){ sh_frame(); for (auto& p : B) for (Box& z : p) if (z.moving && --z.left == 0) z.moving = false; } all += strf("' %d frames\r", n); break; }
			case 8: page ^= 1; stmt(strf("SPPAGE %d", page)); break;
			default: if (g.chance(1, 2)){ stmt(strf("SPCLR %d", id)); b = Box(); } else { flush(0); std::string f = g.pick({"SPHIT(100)", "SPHIT(-1)", "SPHIT(0,100)", "SPHITSP(0,100)", "SPHITSP(-1,3)", "SPHIT(1,-1)"}); stmt("Z=" + f); flush(ERR_OUT_OF_RANGE); } break;
		}
	}
	flush(0); c.label("queries", queries); c.label("queries with a hit", hits); c.label("decided by rounding, not judged", skipped); c.label("timed moves", moved); c.nontrivial(queries >= 2);
}
}
const Prop the_prop = {"P15", run_case, 40000, 2000000,
	"One case = up to 60 steps placing, moving, scaling and sizing sprites of both screens around a point (SPSET, SPOFS also timed, SPCOL, SPCOLVEC, SPSCALE, frames) and queries SPHITSP (both ways round) and SPHIT (with SPHITNO); the answers are compared with an exact test whether the rectangles touch during the relative movement. Non-trivial: at least two queries.", nullptr};

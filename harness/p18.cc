// P18: SORT, RSORT and SWAP on arrays whose elements can be told apart.
#include "model.h"
extern "C" { int sh_set_anum(const char*, int, int32_t); int sh_set_astr(const char*, int, const uint8_t*, int); }
int mem_(uint16_t*);
namespace {
struct Arr { std::string name; bool str, two; int n; std::vector<fx> v; std::vector<MStr> s; };
fx lim(fx v){ return v <= -(524287 << 12) ? -(524287 << 12) : v; }
void run_case(G& g, Case& c){
	std::vector<Arr> A; std::string P, all; int na = g.chance(1, 40) ? g.range(30, 36) : g.range(1, 6), sorts = 0, swaps = 0, moved = 0; bool big = na < 8 && g.chance(1, 12), giant = g.chance(1, 1500); if (giant){ na = g.range(1, 2); c.label("arrays of more than 65536 elements"); }
	sh_new(128, 4096, giant ? 200000 : 60000); int base = giant ? g.range(65537, 70000) : big ? g.range(100, 3000) : g.chance(1, 3) ? g.range(1, 4) : g.range(1, 40);
	static const char* style[] = {"equal", "few values", "random", "ascending", "descending", "pipe", "nearly sorted", "boundary"}; std::string sizes;
	for (int i = 0; i < na; ++i){ Arr a; a.str = g.chance(1, 3); a.name = strf("%c%d", 'A' + i % 26, i) + (a.str ? "$" : ""); a.two = g.chance(1, 40); a.n = g.chance(3, 4) ? base : g.chance(1, 8) ? 10 : g.range(1, base + 5); if (a.str && a.n > 200) a.n = 200;
		bool undeclared = a.n == 10 && !a.two && g.chance(1, 2); if (a.two) P = strf("DIM %s[%d,2]\r", a.name.c_str(), a.n); else if (!undeclared) P = strf("DIM %s[%d]\r", a.name.c_str(), a.n); else P = strf("Z=%s[0]\r", a.name.c_str()); if (a.str && undeclared) P = strf("Z$=%s[0]\r", a.name.c_str());
		if (undeclared && g.chance(1, 4)) P = ""; // created by the first use in SORT
		all += P; if (!P.empty() && run_prog(P)) c.fail("declaring arrays fails"); int st = giant ? g.range(1, 2) : g.below(8), m = g.range(1, 6); sizes += strf("' %s: %d elements, %s\r", a.name.c_str(), a.n, style[st]);
		for (int k = 0; k < a.n; ++k){ fx v = st == 0 ? 7 : st == 1 ? (fx)g.below(m) * 4096 : st == 2 ? lim((fx)g.bits()) : st == 3 ? k * 4096 : st == 4 ? -k * 4096 : st == 5 ? std::min(k, a.n - k) * 4096 : st == 6 ? (k + (int)g.below(3)) * 4096 : lim(gen_fx(g)); MStr s; if (a.str){ if (st == 0) s = mstr("EQ"); else if (st == 1 || st == 5) s = MStr(v / 4096 % 60, 'q'); else if (st == 2 || st == 7) s = gen_mstr(g, g.chance(1, 10) ? 256 : 6); else s = mstr(strf("%07d", v + 9000000)); }
			if (!P.empty() && !a.two){ if (a.str) sh_set_astr(a.name.c_str(), k, s.data(), s.size()); else sh_set_anum(a.name.c_str(), k, v); } else { v = 0; s.clear(); } a.v.push_back(v); a.s.push_back(s); }
		A.push_back(a); }
	all += sizes;
	auto load = [&](Arr& a){ uint16_t w[512]; for (int k = 0; k < a.n; ++k){ if (a.str){ int n = sh_astr(a.name.c_str(), k, a.two ? 0 : -1, w); if (n < 0) c.fail("%s[%d] can not be read", a.name.c_str(), k); MStr s; for (int z = 0; z < n; ++z){ int ch = sh_to_char(w[z]); s += (uint8_t)ch; } a.s[k] = s; } else { fx v = 0; if (!sh_anum(a.name.c_str(), k, a.two ? 0 : -1, &v)) c.fail("%s[%d] can not be read", a.name.c_str(), k); a.v[k] = v; } } };
	auto same = [](const Arr& a, int i, const Arr& b, int j){ return a.str ? gwiden(a.s[i]) == gwiden(b.s[j]) : a.v[i] == b.v[j]; };
	auto val = [](const Arr& a, int i){ return a.str ? show8(a.s[i]) : fxs(a.v[i]); };
	auto unchanged = [&](const std::vector<Arr>& old, const char* why){ for (size_t i = 0; i < A.size(); ++i) for (int k = 0; k < A[i].n; ++k) if (!same(A[i], k, old[i], k)) c.fail("%s: %s[%d] changed from %s to %s", why, A[i].name.c_str(), k, val(old[i], k).c_str(), val(A[i], k).c_str()); };
	fx N[3] = {0, 0, 0}; MStr S[3], MEM; 
	for (int k = 0; g.item(k, 1, 14, 6, 7); ++k){
		if (g.chance(1, 4)){ // SWAP
			struct Op { std::string t; int kind, i, j; }; auto operand = [&](bool str){ Op o; for (int z = 0; z < 6; ++z){ int i = g.below(na); if (A[i].str == str && !A[i].two && g.chance(2, 3)){ int j = g.below(A[i].n); o = {strf("%s[%d]", A[i].name.c_str(), j), 0, i, j}; return o; } } int i = g.below(3); if (str && g.chance(1, 4)) o = {"MEM$", 3, 0, 0}; else if (str) o = {strf("S%d$", i), 2, i, 0}; else o = {strf("N%d", i), 1, i, 0}; return o; };
			bool str = g.chance(1, 2); Op a = operand(str), b = g.chance(1, 12) ? a : operand(str); std::string pre; 
			if (g.chance(1, 2)){ int i = g.below(3); if (str){ S[i] = mstr(strf("v%d", g.range(0, 99))); pre = strf("S%d$=\"%s\":", i, show8(S[i]).c_str()); pre = strf("S%d$=\"", i); for (auto ch : S[i]) pre += ch; pre += "\":"; if (g.chance(1, 4)){ MEM = S[i]; pre += strf("MEM$=S%d$:", i); } } else { N[i] = gen_int_fx(g, -99, 99); pre = strf("N%d=%s:", i, num_lit(N[i]).c_str()); } }
			std::string q = pre + "SWAP " + a.t + "," + b.t + "\r"; if (q.size() > 98) continue; all += q; c.text = show(all); note_text(c.text); std::vector<Arr> W = A; auto sref = [&](Op& o) -> MStr& { return o.kind == 0 ? W[o.i].s[o.j] : o.kind == 2 ? S[o.i] : MEM; }; auto nref = [&](Op& o) -> fx& { return o.kind == 0 ? W[o.i].v[o.j] : N[o.i]; }; if (str){ MStr t = sref(a); sref(a) = sref(b); sref(b) = t; } else { fx t = nref(a); nref(a) = nref(b); nref(b) = t; }
			int e = run_prog(q); if (e) c.fail("SWAP ends with %s", err_name(e).c_str()); for (auto& x : A) load(x); unchanged(W, "after SWAP"); for (int i = 0; i < 3; ++i){ fx v; sh_num(strf("N%d", i).c_str(), &v); if (v != N[i]) c.fail("after SWAP N%d is %s, expected %s", i, fxs(v).c_str(), fxs(N[i]).c_str()); if (get_str(strf("S%d$", i)) != gwiden(S[i])) c.fail("after SWAP S%d$ is %s, expected %s", i, showw(get_str(strf("S%d$", i))).c_str(), show8(S[i]).c_str()); }
			uint16_t w[512]; int n = ::mem_(w); if (WStr(w, w + n) != gwiden(MEM)) c.fail("after SWAP MEM$ is %s, expected %s", showw(WStr(w, w + n)).c_str(), show8(MEM).c_str()); if (sh_dyn_bad() >= 0) c.fail("after SWAP string use counts are wrong"); ++swaps; continue; }
		bool rev = g.chance(1, 2), bare = g.chance(1, 3); std::vector<int> use; use.push_back(g.below(na)); int nc = g.chance(1, 30) ? na : g.chance(1, 3) ? 0 : g.range(0, std::min(na, 6)); for (int i = 0; i < nc; ++i){ int z = nc == na ? i : (int)g.below(na); bool dup = std::find(use.begin() + 1, use.end(), z) != use.end(); if (z != use[0] && (!dup || g.chance(1, 3))){ use.push_back(z); if (dup) c.label("a companion listed twice"); } } bool twice = g.chance(1, 60); if (twice) use.push_back(use[0]);
		int mn = 1 << 30; bool two = false; for (int i : use){ mn = std::min(mn, A[i].n); two |= A[i].two; } bool err = two || twice || use.size() > 33;
		int start = g.chance(1, 2) ? 0 : g.range(0, mn - 1), size = g.chance(1, 2) ? mn - start : g.range(0, mn - start); std::string fs, fz; int bad = g.chance(1, 10) ? g.below(5) : -1;
		if (bad == 0) start = -g.range(1, 3); else if (bad == 1) start = mn + g.range(0, 3); else if (bad == 2) size = mn - start + g.range(1, 3); else if (bad == 3) size = -g.range(1, 3); else if (bad == 4) size = 524287; if (bad >= 0) err = true;
		// any fraction is dropped
		if (g.chance(1, 10)) fs = ".5"; if (g.chance(1, 10)) fz = ".25"; std::string ns = strf("%d", start), nz = strf("%d", size); if (start >= 0) ns += fs; if (size >= 0) nz += fz;
		std::string q = (rev ? "RSORT " : "SORT ") + ns + "," + nz; for (int i : use) q += "," + (A[i].name); (void)bare;
		if (g.chance(1, 6)) q = "X=" + ns + ":" + (rev ? "RSORT X," : "SORT X,") + nz + q.substr(q.find(',', q.find(',') + 1)); q += "\r"; if (q.size() > 100 && use.size() < 32) continue; if (q.size() > 99) q = q; if (q.size() > 101) continue;
		all += q; c.text = show(all); note_text(c.text); std::vector<Arr> old = A; int e = run_prog(q); for (auto& x : A) load(x); if (sh_dyn_bad() >= 0) c.fail("string use counts are wrong after the sort");
		if (err){ if (!e) c.fail("no error for %s", two ? "a two-dimensional array" : twice ? "the key array as companion" : "an invalid range"); unchanged(old, "after an error"); c.label("sort with an error"); continue; }
		if (e) c.fail("the sort ends with %s", err_name(e).c_str()); ++sorts;
		std::vector<bool> in(na, false); for (int i : use) in[i] = true; for (int i = 0; i < na; ++i) for (int x = 0; x < A[i].n; ++x) if ((!in[i] || x < start || x >= start + size) && !same(A[i], x, old[i], x)) c.fail("%s[%d] outside of the range changed from %s to %s", A[i].name.c_str(), x, val(old[i], x).c_str(), val(A[i], x).c_str());
		const Arr& key = A[use[0]]; auto cmp = [&](int i, int j){ return key.str ? cmp_wide(key.s[i], key.s[j]) : key.v[i] < key.v[j] ? -1 : key.v[i] > key.v[j]; };
		for (int x = start; x + 1 < start + size; ++x){ int z = cmp(x, x + 1); if (rev ? z < 0 : z > 0) c.fail("%s[%d] = %s comes before %s", key.name.c_str(), x, val(key, x).c_str(), val(key, x + 1).c_str()); }
		// the rows (key and companions together) are a permutation of the previous rows
		std::multiset<std::string> r0, r1; auto row = [&](const std::vector<Arr>& B, int x){ std::string s; for (int i : use){ if (B[i].str){ for (auto w : gwiden(B[i].s[x])) s += strf("%04x", w); } else s += strf("%d", B[i].v[x]); s += "|"; } return s; };
		bool diff = false; for (int x = start; x < start + size; ++x){ std::string a = row(old, x), b = row(A, x); diff |= a != b; r0.insert(a); r1.insert(b); } if (r0 != r1){ for (auto& z : r1) if (r1.count(z) != r0.count(z)) c.fail("after the sort %zu rows (key|companions) are %s, there were %zu", r1.count(z), z.substr(0, 200).c_str(), r0.count(z)); c.fail("rows are lost"); }
		moved += diff; if (size > 100) c.label("sorts of more than 100 elements"); if (use.size() > 1) c.label("sorts with companions"); if (key.str) c.label("sorts by text");
	}
	c.text = show(all); c.label("sorts", sorts); c.label("swaps", swaps); c.nontrivial(moved > 0);
}
extern "C" int sh_mem_text(uint16_t*);
}
int mem_(uint16_t* w){ int n = sh_mem_text(w); return n < 0 ? 0 : n; }
const Prop the_prop = {"P18", run_case, 30000, 1500000,
	"One case = up to 36 number and string arrays (1 to 3000, sometimes 70000 elements: equal, few values, random, ascending, descending, pipe-shaped, nearly sorted, boundary values; declared, undeclared, two-dimensional) and a history of up to 14 SORT, RSORT and SWAP statements with valid and invalid ranges and array lists. After each one the order, the rows of key and companions, everything outside of the range, and the operands are compared with the state before. Non-trivial: a sort that moves something.", nullptr};

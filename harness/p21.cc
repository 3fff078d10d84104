// P21: system variables against the state they stand for.
#include "model.h"
#include <ctime>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
extern "C" { extern int64_t sh_now; int sh_set_astr(const char*, int, const uint8_t*, int); int sh_set_anum(const char*, int, int32_t); }
namespace {
struct NRead { std::string what; int idx; fx want; fx alt = INT32_MIN; }; struct SRead { std::string what; int idx; WStr want; };
enum { TABSTEP, ICONPUSE, ICONPAGE, ICONPMAX, MEMSAFE, NSYS };
const char* const SYS[] = {"TABSTEP", "ICONPUSE", "ICONPAGE", "ICONPMAX", "MEMSAFE"};
const char* const RO[] = {"TRUE", "FALSE", "CANCEL", "VERSION", "MAINCNTL", "MAINCNTH", "FREEVAR", "FREEMEM", "RESULT", "TCHST", "TCHX", "TCHY", "TCHTIME", "CSRX", "CSRY", "SPHITNO", "KEYBOARD", "FUNCNO", "ERL", "ERR"};
const char* const ROS[] = {"TIME$", "DATE$", "PRGNAME$", "PACKAGE$"};
std::string dir; const char* const FN[] = {"A", "AB", "LONGNAME", "X_1", "SIX666", "SEVEN_7", "MEM"};
int64_t the_time; void on_sleep(){ ++the_time; sh_inc_time(1); }
fx lit_ok(fx v){ return v <= -(524287 << 12) ? -(524287 << 12) : v; }
void run_case(G& g, Case& c){
	setenv("TZ", "UTC", 1); int cap = g.pick({32, 64, 128}); sh_new(cap, 500, 4096); sh_limit(0, 0); std::set<std::string> vars; std::string P, all; std::vector<NRead> nr; std::vector<SRead> sr; int nn = 0, ns = 0, writes = 0, reads = 0, errs = 0; cap = sh_vars_max();
	{ static const int64_t B[] = {0, 0xffff0, 0x100000, 0x7fff0, 0x80000, 0xfffffff0ll, 0x100000000ll, 0x7ffffff0ll, 0xffffffff00ll}; the_time = g.chance(1, 2) ? B[g.below(9)] + g.below(32) : g.below(0x7fffffff); } sh_set_time(the_time); sh_on_sleep = on_sleep; sh_now = 0;
	fx V[NSYS]; WStr mem; int res = 1, tch[4] = {0, 0, 0, 0}, cx = 0, cy = 0; std::string prg = ""; fx X[3] = {0, 0, 0}; int last = 0, alt = -1; // ERR; when the last failure may have been found before running: alt
	auto check = [&](int want, bool ro = false){ c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (e && ro) alt = e; else if (e) last = e, alt = -1; if (ro){ if (!e) c.fail("a read-only system variable can be the target of a statement"); } else if (want < 0 ? e == 0 : e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), want < 0 ? "an error" : err_name(want).c_str());
		for (auto& r : nr){ fx v = 0; sh_anum("R", r.idx, -1, &v); if (v != r.want && v != r.alt) c.fail("%s is %s (raw %08x), expected %s", r.what.c_str(), fxs(v).c_str(), v, fxs(r.want).c_str()); } nr.clear();
		for (auto& r : sr){ uint16_t o[512]; int n = sh_astr("S", r.idx, -1, o); if (n < 0 || WStr(o, n) != r.want) c.fail("%s is %s, expected %s", r.what.c_str(), n < 0 ? "?" : showw(WStr(o, n)).c_str(), showw(r.want).c_str()); } sr.clear(); if (sh_time() != the_time) c.fail("time"); };
	auto dim = [&]{ P += "DIM R[300],S$[200],E$[12]\r"; all += "DIM R[300],S$[200],E$[12]\r"; check(0); vars = {"R[]", "S$[]", "E$[]"}; };
	dim(); MStr E[12]; auto fill = [&]{ for (int i = 0; i < 12; ++i){ int n = g.weighted({8, 1, 1, 1}); n = n == 0 ? g.below(12) : n == 1 ? 255 + g.below(2) : n == 2 ? g.below(256) : 0; uint32_t h = g.below(100000); E[i].clear(); for (int q = 0; q < n; ++q){ h = h * 1664525u + 1013904223u; E[i] += (uint8_t)(h % 5 ? 65 + (h >> 24) % 26 : h >> 24); } sh_set_astr("E$", i, E[i].data(), E[i].size()); all += strf("E$[%d]=%s\r", i, show8(E[i]).c_str()); } }; fill();
	for (int i = 0; i < NSYS; ++i){ sh_num("Q", &V[i]); } vars.insert("Q");
	P = "R[0]=TABSTEP:R[1]=ICONPUSE:R[2]=ICONPAGE:R[3]=ICONPMAX:R[4]=MEMSAFE\r"; all += P; check(0); for (int i = 0; i < NSYS; ++i) sh_anum("R", i, -1, &V[i]); if (V[TABSTEP] != 4 << 12) c.fail("TABSTEP starts as %s", fxs(V[TABSTEP]).c_str());
	auto norm = [&](int i){ switch (i){ case ICONPUSE: case MEMSAFE: V[i] = V[i] ? 4096 : 0; break; case ICONPMAX: V[i] = V[i] < 0 ? 0 : V[i] & ~4095; break; case ICONPAGE: { fx m = V[ICONPMAX]; V[i] = V[i] > m ? m : V[i] < 0 ? 0 : V[i] & ~4095; break; } default: break; } };
	// several written by one statement: each follows its rule with the final values
	auto norm_all = [&](std::vector<int> w){ for (int i : w) if (i != ICONPAGE) norm(i); for (int i : w) if (i == ICONPAGE) norm(i); };
	auto value = [&]{ return lit_ok(g.chance(1, 3) ? gen_int_fx(g, -3, 9) : g.chance(1, 2) ? gen_int_fx(g, -20, 60) : gen_fx(g)); };
	auto rd = [&](const std::string& n, fx w){ nr.push_back({n, nn, w}); ++reads; return strf("R[%d]=", nn++) + n; };
	auto rds = [&](const std::string& n, const WStr& w){ sr.push_back({n, ns, w}); ++reads; return strf("S$[%d]=", ns++) + n; };
	auto dstr = [&]{ time_t t = sh_now; struct tm m; gmtime_r(&t, &m); return strf("%04d/%02d/%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday); };
	auto tstr = [&]{ time_t t = sh_now; struct tm m; gmtime_r(&t, &m); return strf("%02d:%02d:%02d", m.tm_hour, m.tm_min, m.tm_sec); };
	// lowering ICONPMAX below ICONPAGE leaves ICONPAGE unspecified until it is assigned
	auto settle = [&](const char* sep){ std::string r; if (V[ICONPAGE] > V[ICONPMAX]){ fx v = value(); r = sep + std::string("ICONPAGE=") + num_lit(v); V[ICONPAGE] = v; norm(ICONPAGE); } return r; };
	int fresh = 0; std::set<int> saved; static std::string sp; sp = dir + "/"; sh_search_path(sp.c_str()); for (const char* f : FN) unlink((sp + f + ".PTC").c_str());
	for (int k = 0; g.item(k, 2, 60, 25, 26) && nn < 280 && ns < 180; ++k){
		std::string s; int err = 0;
		switch (g.weighted({10, 4, 4, 3, 8, 5, 4, 4, 3, 4, 3, 2, 2, 2, 4, 2, 3})){
			case 0: { int i = g.below(NSYS); fx v = value(); s = strf("%s=", SYS[i]) + num_lit(v); V[i] = v; norm(i); ++writes; break; }
			case 1: { int e = g.below(12); if (g.chance(1, 2)){ s = strf("MEM$=E$[%d]", e); mem = gwiden(E[e]); } else { int e2 = g.below(12), n = g.range(0, 9); s = strf("MEM$=E$[%d]+LEFT$(E$[%d],%d)", e, e2, n); MStr m = E[e] + E[e2].substr(0, n); if (m.size() > 256) continue; mem = gwiden(m); } if (g.chance(1, 3)){ int a = ns; s += ":" + rds("MEM$", mem); int e3 = g.below(12); mem = gwiden(E[e3]); s += strf(":MEM$=E$[%d]", e3); (void)a; } ++writes; break; }
			case 2: { // several at once
				int a = g.below(NSYS), b = g.below(NSYS); if (a == b) continue; std::string y = strf("%04d", g.below(10000)), m = strf("%02d", g.below(100)), d = strf("%02d", g.below(100)); fx v[3] = {(fx)(atoi(y.c_str()) << 12), (fx)(atoi(m.c_str()) << 12), (fx)(atoi(d.c_str()) << 12)};
				if (g.chance(1, 2)){ s = strf("DTREAD(\"%s/%s/%s\"),X0,%s,%s", y.c_str(), m.c_str(), d.c_str(), SYS[a], SYS[b]); } else { y = strf("%02d", g.below(100)); v[0] = atoi(y.c_str()) << 12; s = strf("TMREAD(\"%s:%s:%s\"),X0,%s,%s", y.c_str(), m.c_str(), d.c_str(), SYS[a], SYS[b]); } X[0] = v[0]; vars.insert("X0"); V[a] = v[1]; V[b] = v[2]; norm_all({a, b}); ++writes; break; }
			case 3: { int n = g.range(1, 3); std::string items, data; std::vector<int> w; for (int i = 0; i < n; ++i){ int q = g.below(NSYS); if (std::count(w.begin(), w.end(), q)) continue; fx v = gen_int_fx(g, -9, 40); V[q] = v; items += (w.empty() ? "" : ",") + std::string(SYS[q]); data += (w.empty() ? "" : ",") + num_lit(v); w.push_back(q); } if (data.find('(') != std::string::npos){ norm_all(w); c.label("discarded: data"); return; }
				if (!P.empty()) check(0); s = "READ " + items + "\rDATA " + data; norm_all(w); s += settle("\r"); ++writes; P += s + "\r"; all += s + "\r"; check(0); continue; }
			case 4: { int i = g.below(NSYS); s = rd(SYS[i], V[i]); break; }
			case 5: s = rds("MEM$", mem); break;
			case 6: { int i = g.below(3); fx v = value(); if (g.chance(1, 2)){ s = strf("X%d=", i) + num_lit(v); X[i] = v; vars.insert(strf("X%d", i)); } else { int q = g.below(NSYS); s = g.chance(1, 2) ? strf("SWAP X%d,%s", i, SYS[q]) : strf("SWAP %s,X%d", SYS[q], i); vars.insert(strf("X%d", i)); std::swap(X[i], V[q]); norm(q); ++writes; s += ":" + rd(strf("X%d", i), X[i]); } break; }
			case 7: { if (g.chance(1, 3)){ s = rd("ERR", last << 12); if (alt >= 0) nr.back().alt = alt << 12; break; } if (g.chance(1, 4)){ static const struct { const char* s; int e; } F[] = {{"COLOR 16", ERR_OUT_OF_RANGE}, {"Z$=CHR$(300)", ERR_OUT_OF_RANGE}, {"STOP", ERR_BREAK}, {"NEXT", ERR_NEXT_WITHOUT_FOR}, {"Z=ASC(\"\")", ERR_ILLEGAL_FUNCTION_CALL}}; auto& q = F[g.below(1) ? 0 : g.pick({0, 2})]; if (!P.empty()) check(0); P = strf("%s\r", q.s); all += P; check(q.e); ++errs; continue; } static const struct { const char* n; fx v; } K[] = {{"TRUE", 4096}, {"FALSE", 0}, {"CANCEL", -4096}}; auto& q = K[g.below(3)]; s = rd(q.n, q.v); break; }
			case 8: { s = rd("FREEVAR", 0); nr.back().want = (cap - (int)vars.size()) << 12; break; }
			case 9: { bool h = g.chance(1, 2); s = h ? rd("MAINCNTH", (fx)((uint32_t)(the_time >> 20 & 0xfffff) << 12)) : rd("MAINCNTL", (fx)((uint32_t)(the_time & 0xfffff) << 12)); break; }
			case 10: { if (g.chance(1, 2)){ int n = g.below(20); s = strf("%s %d", g.pick({"WAIT", "VSYNC"}), n); the_time += 0; if (!P.empty()) check(0); int64_t t0 = the_time; P = s + "\r"; all += P; c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (e || the_time - t0 != n || sh_time() != the_time) c.fail("waits %lld frames (%s)", (long long)(the_time - t0), err_name(e).c_str()); continue; }
				if (!P.empty()) check(0); int t = g.below(2), x = g.below(256), y = g.below(192), n = g.chance(1, 10) ? g.range(200, 700) : g.range(1, 40); for (int i = 0; i < n; ++i) sh_touch(t, x, y); all += strf("' touch %d %d,%d for %d\r", t, x, y, n); if (t){ tch[0] = 1; tch[1] = x; tch[2] = y; tch[3] += n; } else tch[0] = tch[3] = 0; static const char* N[] = {"TCHST", "TCHX", "TCHY", "TCHTIME"}; for (int i = 0; i < 4; ++i) s += (i ? ":" : "") + rd(N[i], tch[i] << 12); break; }
			case 11: { if (!P.empty()) check(0); sh_now = (int64_t)g.bits() * g.range(1, 58); if (g.chance(1, 3)){ struct tm m = {}; m.tm_year = g.range(1970, 2100) - 1900; m.tm_mon = g.below(12); m.tm_mday = g.range(1, 31); m.tm_hour = g.pick({0, 9, 10, 19, 20, 23}); m.tm_min = g.pick({0, 9, 10, 59}); m.tm_sec = g.pick({0, 9, 10, 59}); sh_now = timegm(&m); } all += strf("' clock %s %s\r", dstr().c_str(), tstr().c_str()); s = rds("DATE$", gwiden(mstr(dstr()))) + ":" + rds("TIME$", gwiden(mstr(tstr()))); if (g.chance(1, 2)){ std::string d = dstr(); s += strf("\rDTREAD(DATE$),R[%d],R[%d],R[%d]", nn, nn + 1, nn + 2); nr.push_back({"the year", nn++, atoi(d.substr(0, 4).c_str()) << 12}); nr.push_back({"the month", nn++, atoi(d.substr(5, 2).c_str()) << 12}); nr.push_back({"the day", nn++, atoi(d.substr(8).c_str()) << 12}); } P += s + "\r"; all += s + "\r"; check(0); continue; }
			case 12: { // targets that are read-only
				if (!P.empty()) check(0); int q = g.below(sizeof RO / sizeof *RO); std::string v = RO[q]; bool str = g.chance(1, 6); if (str) v = ROS[g.below(4)]; fx before = 0; bool stable = !str; if (stable){ P = "R[299]=" + v + "\r"; all += P; check(0); sh_anum("R", 299, -1, &before); }
				if (g.chance(1, 3) && vars.size() < (size_t)cap - 6) vars.insert("X0"); bool x0 = vars.count("X0"); std::string one = str ? "\"A\"" : "1";
				switch (g.below(6)){ case 0: s = v + "=" + one; break; case 1: s = "READ " + v + "\rDATA 5"; break; case 2: if (!x0 || str) s = v + "=" + one; else s = g.chance(1, 2) ? "SWAP X0," + v : "SWAP " + v + ",X0"; if (x0 && !str) X[0] = X[0]; break; case 3: s = str ? v + "=" + one : "DTREAD(\"2011/12/13\")," + v + "," + v + "," + v; break; case 4: s = str ? v + "=" + one : "FOR " + v + "=1 TO 2\rNEXT"; break; default: s = str ? v + "=" + v : "BGREAD(0,0,0)," + v + "," + v + "," + v + "," + v; }
				if (x0){ P = strf("X0=%s\r", num_lit(X[0] = lit_ok(X[0])).c_str()); all += P; check(0); }
				P = s + "\r"; all += P; check(0, true); ++errs; if (stable){ P = "R[299]=" + v + "\r"; all += P; check(0); fx now; sh_anum("R", 299, -1, &now); if (now != before && v != "FREEVAR" && v != "ERR") c.fail("%s was %s, is %s after a rejected change", v.c_str(), fxs(before).c_str(), fxs(now).c_str()); }
				continue; }
			case 13: { if (vars.size() >= (size_t)cap - 6) continue; if (g.chance(1, 6)){ s = "CLEAR"; if (!P.empty()) check(0); P = s + "\r"; all += P; c.text = show(all); check(0); vars.clear(); for (fx& x : X) x = 0; dim(); fill(); s = rd("FREEVAR", (cap - 3) << 12); break; } static const char* N[] = {"N%d=1", "N%d$=\"A\"", "DIM N%d[3]", "DIM N%d$[2,2]", "Z=N%d"}; static const char* W[] = {"N%d", "N%d$", "N%d[]", "N%d$[]", "N%d"}; int f = g.below(5); s = strf(N[f], fresh); vars.insert(strf(W[f], fresh)); if (f == 4) vars.insert("Z"); ++fresh; break; }
			case 14: { // what TABSTEP is for: the column a comma in PRINT goes to
				int x = g.below(32), y = g.below(22); std::string set; if (g.chance(2, 3)){ fx v = g.chance(3, 4) ? g.range(-1, 18) << 12 : value(); set = "TABSTEP=" + num_lit(v); V[TABSTEP] = v; ++writes; } int t = V[TABSTEP] >> 12; t = t < 1 ? 1 : t > 16 ? 16 : t; bool before = g.chance(1, 2); s = (before && !set.empty() ? set + ":" : "") + strf("LOCATE %d,%d", x, y) + (!before && !set.empty() ? ":" + set : "") + ":PRINT \"A\",;"; auto put = [&]{ if (++x == 32) x = 0, ++y; }; put(); do put(); while (x % t); s += ":" + rd("CSRX", x << 12) + ":" + rd("CSRY", y << 12); break; }
			case 16: { // programs are saved and loaded: the name of the last one loaded, and whether the last access worked
				if (!P.empty()) check(0); int f = g.below(7); bool save = g.chance(1, 2); P = strf("%s \"%s\"%s\r", save ? "SAVE" : "LOAD", FN[f], save ? "" : ",0"); all += P; check(0);
				if (save) saved.insert(f), res = 1; else if ((res = saved.count(f))) prg = FN[f];
				s = rd("RESULT", res << 12) + ":" + rds("PRGNAME$", gwiden(mstr(prg.c_str()))); break; }
			default: { int x = g.below(32), y = g.below(24); s = strf("LOCATE %d,%d:", x, y) + rd("CSRX", x << 12) + ":" + rd("CSRY", y << 12); cx = x; cy = y; (void)cx; (void)cy; (void)res; break; }
		}
		s += settle("\r"); if (s.size() > 98) { size_t p = s.rfind(':'); if (p != std::string::npos) s[p] = '\r'; }
		P += s + "\r"; all += s + "\r"; (void)err; if (g.chance(1, 6)) check(0);
	}
	for (int i = 0; i < NSYS; ++i) if (nn < 299){ std::string q = rd(SYS[i], V[i]) + "\r"; P += q; all += q; } { std::string q = rds("MEM$", mem) + "\r"; P += q; all += q; } check(0);
	sh_on_sleep = nullptr; sh_now = -1; c.label("writes", writes); c.label("reads", reads); c.label("rejected writes", errs); c.nontrivial(writes && reads > 6);
}
}
void prop_process_init(){ dir = strf("v.%d", (int)getpid()); mkdir(dir.c_str(), 0777); }
const Prop the_prop = {"P21", run_case, 200000, 2000000,
	"One case = a history of up to 60 statements that assign system variables (=, READ, SWAP, DTREAD, TMREAD; any value), read them, try to change read-only ones, create and clear variables, wait, save and load programs, print with tabulator commas, and touches, clock and frame-counter settings from outside. After each program the values read, the error and the frame counter are compared with the state. Non-trivial: a write and more than six reads.", nullptr};

// P22: colour and character definitions against tables.
#include "model.h"
#include <unistd.h>
#include <sys/stat.h>
#include <filesystem>
extern "C" { uint8_t* sh_chr(int); uint8_t* sh_col(int); void sh_refresh_clear(); int sh_refresh(int); uint16_t* sh_scr(int, int); }
namespace {
struct SRead { std::string what; int idx; std::string want; }; struct NRead { std::string what; int idx; int want; };
struct Type { const char* n; int banks, base, where; }; // where: 0 on either screen (BG page), 1 on either screen (sprite page), 2 upper only, 3 lower only
const Type T[] = {{"BGU", 4, 8, 0}, {"BGF", 1, 0, 0}, {"BGD", 2, 4, 0}, {"SPU", 8, 12, 2}, {"SPS", 2, 20, 1}, {"SPD", 4, 12, 3}};
const char HEX[] = "0123456789ABCDEF";
void put(const std::string& f, const std::string& s){ FILE* o = fopen(f.c_str(), "wb"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
void run_case(G& g, Case& c){
	static const std::string home = std::filesystem::current_path(); std::string dir = home + strf("/w%d", (int)getpid()); std::filesystem::remove_all(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/resources").c_str(), 0755); if (chdir(dir.c_str())) abort();
	struct Back { std::string d; ~Back(){ if (chdir(home.c_str())) abort(); std::filesystem::remove_all(d); } } back{dir};
	// default definitions of some banks
	std::map<std::string, std::string> files; static const char* const F[] = {"BGF0", "BGD0", "BGD1", "BGU0", "BGU1", "BGU2", "BGU3", "SPU0", "SPU1", "SPU2", "SPU3", "SPU4", "SPU5", "SPU6", "SPU7", "SPD0", "SPD1", "SPD2", "SPD3", "SPS0", "SPS1", "COL0", "COL1", "COL2"};
	uint64_t r = g.bits(); auto rnd = [&]{ r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33); };
	for (const char* f : F){ bool col = f[0] == 'C'; if (!g.chance(1, col ? 2 : 4)) continue; int n = col ? 512 : 8192; std::string d(n, 0); for (char& b : d) b = (char)rnd(); files[f] = d; std::string h = g.chance(1, 2) ? std::string("PETC0100R") + (col ? "COL" : "CHR") : "PX01" + std::string(32, '\1') + "PETC0100R" + (col ? "COL" : "CHR"); put(dir + "/resources/" + f + ".PTC", h + d); }
	sh_new(64, 400, 4096); run_prog("DIM R[400],S$[200]\r");
	static std::string chr[44]; static uint16_t col[6][256]; for (auto& b : chr) b.assign(8192, 0); memset(col, 0, sizeof col);
	for (auto& t : T) for (int b = 0; b < t.banks; ++b) for (int s = 0; s < 2; ++s){ if ((t.where == 2 && s) || (t.where == 3 && !s)) continue; auto f = files.find(strf("%s%d", t.n, b)); if (f != files.end()) chr[22 * s + t.base + b] = f->second; }
	for (int i = 0; i < 6; ++i){ auto f = files.find(strf("COL%d", i % 3)); if (f != files.end()) memcpy(col[i], f->second.data(), 512); }
	// banks without a name of their own keep what they have
	for (int i : {1, 2, 3, 6, 7}) for (int s = 0; s < 2; ++s) chr[22 * s + i].assign((char*)sh_chr(22 * s + i), 8192); for (int i = 38; i < 42; ++i) chr[i].assign((char*)sh_chr(i), 8192);
	int pg[3] = {0, 0, 0}, ns = 0, nr = 0, sets = 0, reads = 0, errs = 0; std::string P, all; std::vector<SRead> sr; std::vector<NRead> nrd; std::set<int> chg; bool colchg = false; sh_refresh_clear();
	auto check = [&](int want){ c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (want < 0 ? e == 0 : e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), want < 0 ? "an error" : err_name(want).c_str());
		for (auto& q : nrd){ fx v; sh_anum("R", q.idx, -1, &v); if (v != q.want << 12) c.fail("%s is %s, expected %d", q.what.c_str(), fxs(v).c_str(), q.want); } nrd.clear();
		for (auto& q : sr){ uint16_t o[512]; int n = sh_astr("S", q.idx, -1, o); WStr w = gwiden(mstr(q.want)); if (n < 0 || WStr(o, n) != w) c.fail("%s is %s, expected %s", q.what.c_str(), n < 0 ? "?" : showw(WStr(o, n)).c_str(), q.want.c_str()); } sr.clear();
		for (int i = 0; i < 44; ++i) if (memcmp(sh_chr(i), chr[i].data(), 8192)) for (int k = 0; k < 8192; ++k) if (sh_chr(i)[k] != (uint8_t)chr[i][k]) c.fail("character bank %d: character %d byte %d is %02x, expected %02x", i, k / 32, k % 32, sh_chr(i)[k], (uint8_t)chr[i][k]);
		for (int i = 0; i < 6; ++i) if (memcmp(sh_col(i), col[i], 512)) for (int k = 0; k < 256; ++k) if (((uint16_t*)sh_col(i))[k] != col[i][k]) c.fail("color bank %d: color %d is %04x, expected %04x", i, k, ((uint16_t*)sh_col(i))[k], col[i][k]);
		for (int i : chg) if (!sh_refresh(i)) c.fail("character bank %d was changed but is not displayed again", i); if (colchg && !sh_refresh(-1)) c.fail("colors were changed but are not displayed again"); chg.clear(); colchg = false; sh_refresh_clear(); };
	int hotid[3]; for (int& h : hotid) h = g.pick({0, 1, 127, 128, 254, 255, (int)g.below(256), (int)g.below(256)}); auto entry = [&]{ return g.chance(2, 3) ? hotid[g.below(3)] : (int)g.below(256); };
	const Type* hot = &T[g.below(6)]; static const char* CR[] = {"BG", "SP", "GRP"};
	auto name = [&](int& bank, std::string& file){ const Type& t = g.chance(1, 2) ? *hot : T[g.below(6)]; int form = g.weighted({3, 3, 1}), b = form == 2 ? 0 : g.below(t.banks), s = t.where == 2 ? 0 : t.where == 3 ? 1 : t.where == 1 ? pg[1] : pg[0]; std::string n = t.n; if (form < 2) n += '0' + b; if (form == 0 && t.where < 2){ s = g.below(2); n += "UL"[s]; } else if (form == 0) n += t.where == 2 ? 'U' : 'L'; bank = 22 * s + t.base + b; file = strf("%s%d", t.n, b); if (t.where >= 2 && form == 0 && g.chance(1, 2)) n.pop_back(); return n; };
	static const char* BAD[] = {"", "X", "BG", "BGX", "BGU4", "BGF1", "BGD2", "SPU8", "SPS2", "SPD4", "SPD0U", "SPU0L", "BGU0X", "bgu0", "BGU0UU", "SPK0", "CHR", "COL0", "GRP0", "SCU0", "MEM", "PRG", "BGU/", "BGU0U:", "BGU0:A", "BGU0:", "SPU0:", "BGF0:", "SPD3:", "BGF00", "COL0U"};
	auto pad = [&](const std::string& s){ return s; };
	for (int k = 0; g.item(k, 2, 60, 25, 26) && nr < 380 && ns < 190; ++k){
		std::string s; int err = 0, b; std::string f; bool bad = g.chance(1, 12);
		switch (g.weighted({8, 8, 4, 8, 8, 4, 3, 1, 4})){
			case 0: { std::string n = name(b, f), d; int id = entry(); int style = g.below(3); for (int i = 0; i < 64; ++i) d += style == 0 ? HEX[rnd() % 16] : style == 1 ? HEX[id % 16] : HEX[rnd() % 4 ? 0 : rnd() % 16]; int idw = id; if (bad){ err = ERR_ILLEGAL_FUNCTION_CALL; switch (g.below(5)){ case 0: d.pop_back(); break; case 1: d += '0'; break; case 2: d[g.below(64)] = "Gg/:@` x"[g.below(8)]; break; case 3: idw = g.pick({-1, 256, 300, -256}); err = ERR_OUT_OF_RANGE; break; default: n = BAD[g.below(27)]; err = ERR_INVALID_RESOURCE_TYPE; } if (g.chance(1, 9) && d.size() == 65) d.clear(); }
				s = "CHRSET " + pad("\"" + n + "\"") + strf(",%d,\"", idw) + d + "\""; if (g.chance(1, 4)){ s = "D$=\"" + d.substr(0, d.size() / 2) + "\"+\"" + d.substr(d.size() / 2) + "\"\rCHRSET \"" + n + strf("\",%d,D$", idw); } if (!err){ for (int i = 0; i < 32; ++i){ int lo = strchr(HEX, d[2 * i]) - HEX, hi = strchr(HEX, d[2 * i + 1]) - HEX; chr[b][32 * id + i] = (char)(lo | hi << 4); } chg.insert(b); ++sets; } break; }
			case 1: { std::string n = name(b, f); int id = entry(), idw = id; if (bad){ if (g.chance(1, 2)) idw = g.pick({-1, 256, 300, -256}), err = ERR_OUT_OF_RANGE; else n = BAD[g.below(27)], err = ERR_INVALID_RESOURCE_TYPE; } std::string v = err ? "Z$" : strf("S$[%d]", ns); s = strf("CHRREAD(\"%s\",%d),%s", n.c_str(), idw, v.c_str()); if (!err){ std::string w; for (int i = 0; i < 32; ++i){ uint8_t q = chr[b][32 * id + i]; w += HEX[q & 15]; w += HEX[q >> 4]; } sr.push_back({s, ns++, w}); ++reads; } break; }
			case 2: { std::string n = name(b, f); if (bad){ n = BAD[g.below(27)]; err = ERR_INVALID_RESOURCE_TYPE; } else if (!files.count(f)){ err = ERR_FILE_LOAD_FAILED; if (g.chance(2, 3)) continue; } s = "CHRINIT \"" + n + "\""; if (!err){ chr[b] = files[f]; chg.insert(b); ++sets; } break; }
			case 3: { int w = g.below(3), id = entry(), idw = id; std::string d, n = CR[w]; for (int i = 0; i < 6; ++i) d += HEX[g.below(16)]; if (bad){ err = ERR_ILLEGAL_FUNCTION_CALL; switch (g.below(5)){ case 0: d.pop_back(); break; case 1: d += '0'; break; case 2: d[g.below(6)] = "Gg/:@` af"[g.below(9)]; break; case 3: idw = g.pick({-1, 256, 300}); err = ERR_OUT_OF_RANGE; break; default: n = g.pick({"", "B", "BGU", "COL0", "bg", "GR", "GRP0", "SPU0", "BG0"}); err = ERR_INVALID_RESOURCE_TYPE; } }
				s = strf("COLSET \"%s\",%d,\"%s\"", n.c_str(), idw, d.c_str()); if (!err){ int v = (int)strtol(d.c_str(), nullptr, 16), R = v >> 16 & 255, G_ = v >> 8 & 255, B = v & 255; col[w + 3 * pg[w]][id] = (uint16_t)(R >> 3 | (G_ >> 3) << 5 | (B >> 3) << 10 | (G_ >> 2 & 1) << 15); colchg = true; ++sets; } break; }
			case 4: { int w = g.below(3), id = entry(), idw = id; std::string n = CR[w]; if (bad){ if (g.chance(1, 2)) idw = g.pick({-1, 256, 300}), err = ERR_OUT_OF_RANGE; else n = g.pick({"", "B", "BGU", "COL0", "bg", "GR", "GRP0", "SPU0", "BG0"}), err = ERR_INVALID_RESOURCE_TYPE; } s = strf("COLREAD(\"%s\",%d),", n.c_str(), idw); if (err) s += "X,Y,Z"; else { uint16_t v = col[w + 3 * pg[w]][id]; int R = v & 31, G_ = (v >> 5 & 31) << 1 | v >> 15, B = v >> 10 & 31; int q[3] = {R << 3 | R >> 2, G_ << 2 | G_ >> 4, B << 3 | B >> 2}; static const char* cn[] = {"red", "green", "blue"}; for (int i = 0; i < 3; ++i) nrd.push_back({strf("%s of color %d of %s", cn[i], id, n.c_str()), nr + i, q[i]}); s += strf("R[%d],R[%d],R[%d]", nr, nr + 1, nr + 2); nr += 3; ++reads; } break; }
			case 5: { int form = g.weighted({1, 3, 4}), w = g.below(3), id = entry(), idw = id; std::string n = CR[w]; f = strf("COL%d", w); if (form == 0){ s = "COLINIT"; for (int i = 0; i < 6; ++i){ auto q = files.find(strf("COL%d", i % 3)); if (q != files.end()) memcpy(col[i], q->second.data(), 512); } colchg = true; break; }
				if (bad){ if (form == 2 && g.chance(1, 2)) idw = g.pick({-1, 256, 300}), err = ERR_OUT_OF_RANGE; else n = g.pick({"", "B", "BGU", "COL0", "bg", "GRP0", "SPU0"}), err = ERR_INVALID_RESOURCE_TYPE; } else if (!files.count(f)){ if (form == 1 || g.chance(2, 3)) continue; err = ERR_FILE_LOAD_FAILED; }
				s = form == 1 ? strf("COLINIT \"%s\"", n.c_str()) : strf("COLINIT \"%s\",%d", n.c_str(), idw); if (!err){ uint16_t* d = col[w + 3 * pg[w]]; const char* src = files[f].data(); if (form == 1) memcpy(d, src, 512); else memcpy(d + id, src + 2 * id, 2); colchg = true; ++sets; } break; }
			case 6: { int w = g.below(3), v = g.below(2); static const char* N[] = {"BGPAGE", "SPPAGE", "GPAGE"}; s = strf("%s %d", N[w], v); pg[w] = v; break; }
			case 8: { // the colors of the palette come with the character that is drawn
				std::string n = name(b, f); int pal = g.below(16), pw = pal, sz = 1 << g.below(4), w = n[0] == 'S', q = n.back() == 'L' ? 1 : n.back() == 'U' && n.size() > 3 ? 0 : pg[w];
				if (bad){ switch (g.below(3)){ case 0: pw = g.pick({-1, 16}); err = ERR_OUT_OF_RANGE; break; case 1: sz = g.pick({0, 3, 16}); err = ERR_ILLEGAL_FUNCTION_CALL; break; default: n = BAD[g.below(27)]; err = ERR_INVALID_RESOURCE_TYPE; } }
				s = strf("GPUTCHR %d,%d,\"%s\",%d,%d,%d", g.range(-9, 256), g.range(-9, 200), n.c_str(), entry(), pw, sz); if (!err){ memcpy(&col[2 + 3 * pg[2]][16 * pal], &col[w + 3 * q][16 * pal], 32); colchg = true; ++sets; } break; }
			default: s = g.pick({"CLS", "GCLS", "BGCLR", "SPCLR", "GCLS 7", "SPSET 0,3,2,0,0,0"}); break;
		}
		P += s + "\r"; all += s + "\r"; if (err){ ++errs; check(err); } else if (g.chance(1, 8)) check(0);
	}
	c.text = show(all); note_text(c.text); if (!P.empty()) check(0);
	c.label("definitions", sets); c.label("reads", reads); c.label("rejected", errs); c.label("default files", files.size()); c.nontrivial(sets && reads);
}
}
const Prop the_prop = {"P22", run_case, 60000, 2000000,
	"One case = random default definition files and a history of up to 60 CHRSET, CHRREAD, CHRINIT, COLSET, COLREAD, COLINIT, GPUTCHR (valid and invalid names, entries and digits, with and without bank and screen) and page changes. After each program all 44 character banks, 6 color banks, values read, the error and the redisplay marks of changed banks are compared with tables. Non-trivial: a definition and a read.", nullptr};

// P16: SAVE and LOAD against a model of all resources and of the storage folder.
#include "model.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <cstdlib>
#include <filesystem>
extern "C" { uint8_t* sh_chr(int); uint8_t* sh_col(int); uint16_t* sh_scr(int, int); const char* sh_prg(int*); int sh_mem_text(uint16_t*); }
namespace {
enum { PRG, CHR, SCR, GRP, MEM, COL };
const char* const tag[6] = {"PETC0300RPRG", "PETC0100RCHR", "PETC0100RSCR", "PETC0100RGRP", "PETC0200RMEM", "PETC0100RCOL"};
const int size_[6] = {0, 8192, 8192, 49152, 516, 512};
const int MAXPRG = 524288;
struct File { int type; std::string data; WStr mem; };
struct Dest { int type = -1, bank = 0; };         // bank: index into that type's list
struct Model { std::string chr[44], scr[8], col[6], grp[4], prg; WStr mem; int bg = 0, sp = 0, gp = 0; std::map<std::string, File> files; int result = 1; std::string* at(Dest d){ return d.type == CHR ? &chr[d.bank] : d.type == SCR ? &scr[d.bank] : d.type == COL ? &col[d.bank] : d.type == GRP ? &grp[d.bank] : nullptr; } };
uint8_t* real(Dest d){ return d.type == CHR ? sh_chr(d.bank) : d.type == SCR ? (uint8_t*)sh_scr(d.bank / 4, d.bank % 4) : d.type == COL ? sh_col(d.bank) : sh_grp_raw(d.bank); }
const int count_[6] = {0, 44, 8, 4, 0, 6};
std::string nm(Dest d){ static const char* t[] = {"PRG", "CHR", "SCR", "GRP", "MEM", "COL"}; return strf("%s bank %d", t[d.type], d.bank); }
// what a valid resource type means on the current pages
Dest resolve(const std::string& t, const Model& m){
	Dest d; std::string b = t.substr(0, 3); int bank = t.size() > 3 ? t[3] - '0' : 0; auto low = [&](int page){ return t.size() > 4 ? t[4] == 'L' : page; };
	if (b == "PRG") d.type = PRG; else if (b == "MEM") d.type = MEM;
	else if (b == "BGF") d = {CHR, 22 * low(m.bg) + bank}; else if (b == "BGD") d = {CHR, 22 * low(m.bg) + 4 + bank}; else if (b == "BGU") d = {CHR, 22 * low(m.bg) + 8 + bank};
	else if (b == "SPU") d = {CHR, 12 + bank}; else if (b == "SPD") d = {CHR, 34 + bank}; else if (b == "SPS") d = {CHR, 22 * low(m.sp) + 20 + bank};
	else if (b == "SCU") d = {SCR, 4 * low(m.bg) + 2 + bank}; else if (b == "GRP") d = {GRP, bank};
	else if (b == "COL") d = {COL, 3 * low(bank == 0 ? m.bg : bank == 1 ? m.sp : m.gp) + bank};
	return d;
}
std::string gen_type(G& g){
	static const struct { const char* n; int banks; int pg; } T[] = {{"COL", 3, 3}, {"BGU", 4, 3}, {"BGF", 1, 3}, {"BGD", 2, 3}, {"SPU", 8, 1}, {"SPS", 2, 3}, {"SPD", 4, 2}, {"SCU", 2, 3}, {"GRP", 4, 0}, {"MEM", 0, 0}, {"PRG", 0, 0}};
	auto& t = T[g.below(11)]; std::string s = t.n; if (!t.banks) return s; int f = g.weighted({3, 3, 2}); if (f == 2) return s; s += '0' + g.below(t.banks); if (f == 1 || !t.pg) return s; s += t.pg == 3 ? (g.chance(1, 2) ? 'L' : 'U') : t.pg == 1 ? 'U' : 'L'; return s;
}
std::string gen_bad_type(G& g){ static const char* l[] = {"", "X", "BG", "CO", "BGX", "BGU4", "BGF1", "BGD2", "SPU8", "SPS2", "SPD4", "SPD0U", "SPU0L", "COL3", "SCU2", "SCD0", "GRP4", "BGU0X", "BGU0l", "bgu0", "COL0LL", "BGU0UU", "GRP0UU", "SPK0", "CHR", "mem", "SCR", "COL-", "BGU/", "BGF00"}; return l[g.below(sizeof l / sizeof *l)]; }
void put(const std::string& f, const std::string& s){ FILE* o = fopen(f.c_str(), "wb"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
bool get(const std::string& f, std::string& s){ s.clear(); FILE* o = fopen(f.c_str(), "rb"); if (!o) return false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, o)) > 0) s.append(b, n); fclose(o); return true; }
std::string lit(const std::string& s){ return "\"" + s + "\""; }
void run_case(G& g, Case& c){
	std::string root = strf("w%d", (int)getpid()); std::filesystem::remove_all(root);
	std::string dir = root; mkdir(dir.c_str(), 0755); for (const char* s : {"/a", "/b", "/c", "/d", "/store"}){ dir += s; mkdir(dir.c_str(), 0755); }
	static std::string path; path = dir + "/"; sh_new(64, 128, 4096); sh_search_path(path.c_str()); run_prog("DIM R[400]\r");
	static Model M; M = Model(); std::string P, all; std::vector<std::function<void()>> acts; struct Want { std::string what; int idx, v; }; std::vector<Want> wants; std::map<std::string, int> gt; int nr = 0, saves = 0, loads = 0, good = 0, bad = 0; bool err = false;
	std::set<std::string> extra, touched;  // other entries of the folder; files written
	if (g.chance(1, 3)){ mkdir((path + "DIR.PTC").c_str(), 0755); extra.insert("DIR.PTC"); }
	if (g.chance(1, 3)){ if (symlink("/dev/full", (path + "FULL.PTC").c_str())) abort(); extra.insert("FULL.PTC"); }
	for (const char* e : {"noext", "a-b.PTC", "LONGNAME9.PTC", ".hidden", "X Y.PTC"}) if (g.chance(1, 5)){ put(path + e, "PETC0100RCHR"); extra.insert(e); }
	{ uint64_t r = g.bits(); auto rnd = [&]{ r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33); };
	  for (int t : {CHR, SCR, COL, GRP}) for (int i = 0; i < count_[t]; ++i){ Dest d = {t, i}; std::string& s = *M.at(d); s.assign(size_[t], 0); int style = rnd() % 4; uint8_t k = rnd(); for (size_t j = 0; j < s.size(); ++j) s[j] = style == 0 ? (char)(k + i) : style == 1 ? (char)rnd() : style == 2 ? (char)(j + i) : rnd() % 16 ? 0 : (char)rnd(); memcpy(real(d), s.data(), s.size()); } }
	std::vector<std::string> names; for (int i = 0; i < 4; ++i){ static const char ch[] = "ABZaz019_GRP"; std::string n; int len = g.chance(1, 3) ? 8 : g.range(1, 4); for (int k = 0; k < len; ++k) n += ch[g.below(sizeof ch - 1)]; names.push_back(n); }
	auto folder = [&](const std::string& d){ std::set<std::string> r; DIR* o = opendir(d.c_str()); if (!o) c.fail("folder %s is gone", d.c_str()); while (dirent* e = readdir(o)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.insert(e->d_name); closedir(o); return r; };
	auto check = [&](){
		c.text = show(all); note_text(c.text); M.prg = P; if (P.empty()) return; int e = run_prog(P); P.clear(); for (auto& a : acts) a(); acts.clear();
		if (err != (e != 0)) c.fail("ends with %s, expected %s", err_name(e).c_str(), err ? "an error" : "none"); err = false;
		for (auto& w : wants){ fx v; sh_anum("R", w.idx, -1, &v); if (w.v >= 0 && v != w.v << 12) c.fail("RESULT after %s is %s, expected %d", w.what.c_str(), fxs(v).c_str(), w.v); } wants.clear();
		for (int t : {CHR, SCR, COL, GRP}) for (int i = 0; i < count_[t]; ++i){ Dest d = {t, i}; const uint8_t* q = real(d); const std::string& s = *M.at(d); if (memcmp(q, s.data(), s.size())) for (size_t j = 0; j < s.size(); ++j) if (q[j] != (uint8_t)s[j]) c.fail("%s byte %zu is %d, expected %d", nm(d).c_str(), j, q[j], (uint8_t)s[j]); }
		uint16_t w[512]; int n = sh_mem_text(w); WStr ms(w, w + (n < 0 ? 0 : n)); if (ms != M.mem) c.fail("MEM$ is %s, expected %s", showw(ms).c_str(), showw(M.mem).c_str());
		int pn; const char* pt = sh_prg(&pn); if (M.prg.size() != (size_t)pn || memcmp(pt, M.prg.data(), pn)) c.fail("program text has %d bytes, expected %zu%s", pn, M.prg.size(), (size_t)pn == M.prg.size() ? " (other text)" : "");
		std::set<std::string> have = folder(dir), want = extra; for (auto& f : M.files) want.insert(f.first + ".PTC"); if (have != want){ for (auto& h : have) if (!want.count(h)) c.fail("file %s appeared in the storage folder", h.c_str()); for (auto& h : want) if (!have.count(h)) c.fail("file %s is missing in the storage folder", h.c_str()); }
		for (std::string d = dir; d != root;){ size_t k = d.rfind('/'); std::string b = d.substr(k + 1); d = d.substr(0, k); auto f = folder(d); if (f.size() != 1 || *f.begin() != b) c.fail("files outside the storage folder were changed"); }
		for (auto& n : touched){ auto& f = M.files[n]; std::string s, x; if (!get(path + n + ".PTC", s)) c.fail("file %s is missing", n.c_str()); x = tag[f.type]; if (f.type == PRG){ int z = f.data.size(); x += std::string(8, '\0'); x += (char)z; x += (char)(z >> 8); x += (char)(z >> 16); x += '\0'; } if (f.type != MEM){ x += f.data; if (s != x) c.fail("file %s of %zu bytes does not hold what was saved (%zu bytes)", n.c_str(), s.size(), x.size()); }
			else { bool ok = s.size() == x.size() + 516 && !s.compare(0, 12, x); for (size_t i = 0; ok && i < f.mem.size(); ++i) ok = (uint8_t)s[12 + 2 * i] == (f.mem[i] & 255) && (uint8_t)s[13 + 2 * i] == f.mem[i] >> 8; for (int i = 0; ok && i < 4; ++i) ok = (uint8_t)s[12 + 512 + i] == (f.mem.size() >> 8 * i & 255); if (!ok) c.fail("file %s does not hold the saved MEM$", n.c_str()); } } touched.clear();
	};
	auto result = [&](const std::string& s){ int i = nr++; wants.push_back({s, i, -1}); return i; };
	auto set_result = [&](int i, int v){ M.result = v; for (auto& w : wants) if (w.idx == i) w.v = v; };
	for (int k = 0; g.item(k, 2, 40, 20, 21) && nr < 390; ++k){
		std::string s; int op = g.weighted({10, 12, 3, 3, 3, 3, 2, 2, 2, 2, 1, 1});
		auto name = [&](const std::string& base){ return base; }; (void)name;
		std::string n = extra.size() && g.chance(1, 12) ? (g.chance(1, 2) ? "DIR" : "FULL") : g.chance(1, 20) ? "NOFILE" : names[g.below(4)];
		switch (op){
			case 0: { std::string t = gen_type(g); bool dflt = t == "PRG" && g.chance(1, 2); s = "SAVE " + lit((dflt ? "" : t + ":") + n); int i = result(s); ++saves; if (!extra.count(n + ".PTC")) gt[n] = resolve(t, M).type;
				acts.push_back([&, t, n, i]{ Dest d = resolve(t, M); if (extra.count(n + ".PTC")){ set_result(i, 0); return; } File f; f.type = d.type; if (d.type == PRG) f.data = M.prg; else if (d.type == MEM) f.mem = M.mem; else f.data = *M.at(d); M.files[n] = f; touched.insert(n); set_result(i, d.type == PRG && M.prg.empty() ? -1 : 1); }); s += strf(":R[%d]=RESULT", i); break; }
			case 1: { std::string t; auto f = gt.find(n); if (f == gt.end() && gt.size() && g.chance(7, 8)){ f = gt.begin(); n = f->first; } for (int z = 0; z < 12; ++z){ t = gen_type(g); if (f == gt.end() || resolve(t, M).type == f->second || g.chance(1, 20)) break; } bool dflt = t == "PRG" && g.chance(1, 2); s = "LOAD " + lit((dflt ? "" : t + ":") + n); int i = result(s); ++loads;
				acts.push_back([&, t, n, i]{ Dest d = resolve(t, M); auto f = M.files.find(n); if (extra.count(n + ".PTC") || f == M.files.end() || f->second.type != d.type){ set_result(i, 0); ++bad; return; } ++good; if (d.type == PRG) M.prg = f->second.data; else if (d.type == MEM) M.mem = f->second.mem; else *M.at(d) = f->second.data; set_result(i, d.type == PRG && M.prg.empty() ? -1 : 1); }); s += strf(":R[%d]=RESULT", i); break; }
			case 2: { int v = g.below(2); s = strf("BGPAGE %d", v); acts.push_back([v]{ M.bg = v; }); break; }
			case 3: { int v = g.below(2); s = strf("SPPAGE %d", v); acts.push_back([v]{ M.sp = v; }); break; }
			case 4: { int v = g.below(2); s = strf("GPAGE %d", v); acts.push_back([v]{ M.gp = v; }); break; }
			case 5: { int len = g.chance(1, 6) ? g.pick({0, 1, 255, 256}) : g.range(0, 20); std::string x = "\""; WStr w; int ln = 0; for (; ln < len && ln < 60; ++ln){ int ch = g.range(35, 122); x += (char)ch; w += golden_wide[ch]; } x += "\""; if (ln < len){ x += strf("+\"%c\"*%d", 'q', len - ln); w += WStr(len - ln, golden_wide['q']); } s = "MEM$=" + x; acts.push_back([w]{ M.mem = w; }); break; }
			case 6: { std::string ad = gen_bad_type(g), bn = n; int f = g.weighted({4, 4}); if (f == 1){ ad = g.chance(1, 2) ? gen_type(g) : ""; if (ad == "PRG" && g.chance(1, 2)) ad = ""; static const char* b[] = {"", "LONGNAME9", "A.B", "../A", "../../A", "/A", "A/B", "a b", "A-B", "..", ".", "A:B", "\xA6", "A*", "$A", "A$", "./A", "A\\B"}; bn = b[g.below(sizeof b / sizeof *b)]; }
				bool nul = f == 1 && g.chance(1, 8); std::string full = (f == 0 || !ad.empty() ? ad + ":" : "") + bn; if (nul) full = n; if (full.size() > 16) continue;
				s = g.pick({"SAVE ", "LOAD "}) + lit(full); if (nul) s += "+CHR$(0)" + std::string(g.chance(1, 2) ? "+\"B\"" : ""); err = true; c.label("statement with an invalid name or type"); break; }
			case 7: { s = "APPEND " + lit((g.chance(1, 2) ? "PRG:" : "") + n); int i = result(s); acts.push_back([&, n, i]{ auto f = M.files.find(n); if (extra.count(n + ".PTC") || f == M.files.end() || f->second.type != PRG){ set_result(i, 0); ++bad; return; } ++good; M.prg = (M.prg + f->second.data).substr(0, MAXPRG); set_result(i, 1); }); s += strf(":R[%d]=RESULT", i); break; }
			case 8: { s = "NEW"; acts.push_back([]{ M.prg.clear(); }); break; }
			case 9: { // the files the folder lists
				if (P.empty()) P = "'\r"; check(); if (M.files.size() > 14) continue; s = "CLS:FILES"; P = s + "\r"; all += P; check(); std::set<std::string> got; for (int y = 0; y < 24; ++y){ std::string l; for (int x = 0; x < 32; ++x){ int ch = sh_to_char(sh_con_char(x, y)); l += ch < 32 ? ' ' : (char)ch; } while (!l.empty() && l.back() == ' ') l.pop_back(); if (l.empty()) continue; if (!got.insert(l).second) c.fail("FILES lists %s twice", l.c_str()); }
				for (auto& f : M.files) if (!got.count(f.first)) c.fail("FILES does not list %s", f.first.c_str()); for (auto& l : got) if (!M.files.count(l) && l != "DIR" && l != "FULL") c.fail("FILES lists %s", l.c_str()); c.label("FILES"); continue; }
			case 10: { int z = g.range(2, 16); s = strf("FOR I=1 TO %d:SAVE \"%s\":APPEND \"%s\":NEXT", z, names[0].c_str(), names[0].c_str()); acts.push_back([&, z, n0 = names[0]]{ for (int q = 0; q < z; ++q){ M.files[n0] = {PRG, M.prg, WStr()}; M.prg = (M.prg + M.prg).substr(0, MAXPRG); } touched.insert(n0); if (M.prg.size() == (size_t)MAXPRG) c.label("program memory filled"); }); break; }
			default: s = g.pick({"APPEND \"GRP0:A\"", "APPEND \"\"", "APPEND \"X.Y\""}); err = true;
		}
		P += s + "\r"; all += s + "\r"; if (err || op == 10 || g.chance(1, 4)) check();
	}
	c.text = show(all); note_text(c.text); check(); if (g.chance(1, 50)){ sh_search_path("w0/none/"); P = "FILES:SAVE \"A\":R[0]=RESULT:LOAD \"A\":R[1]=RESULT\r"; int e = run_prog(P); fx a, b; sh_anum("R", 0, -1, &a); sh_anum("R", 1, -1, &b); if (e || a || b) c.fail("without a storage folder: %s, RESULT %s and %s", err_name(e).c_str(), fxs(a).c_str(), fxs(b).c_str()); }
	c.label("SAVE", saves); c.label("LOAD", loads); c.label("successful loads", good); c.label("failing loads", bad); c.nontrivial(saves && good);
}
}
const Prop the_prop = {"P16", run_case, 6000, 300000,
	"One case = a storage folder (other entries, a directory and an unwritable file included), random contents of all 62 banks, and a history of up to 40 SAVE, LOAD, APPEND, NEW, FILES, MEM$ and page statements with valid and invalid types and names. After each program all banks, MEM$, the program text, RESULT, the files written and the folder tree are compared with a model. Non-trivial: a save and a successful load.", nullptr};

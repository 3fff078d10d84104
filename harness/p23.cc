// P23: malformed files against a reference reader of the file formats.
#include "model.h"
#include <unistd.h>
#include <sys/stat.h>
#include <filesystem>
extern "C" { uint8_t* sh_chr(int); uint8_t* sh_col(int); uint16_t* sh_scr(int, int); const char* sh_prg(int*); int sh_mem_text(uint16_t*); void sh_set_names(const char*, const char*); const char* sh_prgname(); const char* sh_package();
#include "extension/compress.h"
}
namespace {
enum { PRG, CHR, SCR, GRP, MEM, COL };
const char* const tag[6] = {"PETC0300RPRG", "PETC0100RCHR", "PETC0100RSCR", "PETC0100RGRP", "PETC0200RMEM", "PETC0100RCOL"};
const size_t size_[6] = {0, 8192, 8192, 49152, 516, 512};
const int count_[6] = {0, 44, 8, 4, 0, 6};
const size_t MAXPRG = 524288;
struct Dest { int type = -1, bank = 0; bool operator<(const Dest& o) const { return type != o.type ? type < o.type : bank < o.bank; } };
uint8_t* real(Dest d){ return d.type == CHR ? sh_chr(d.bank) : d.type == SCR ? (uint8_t*)sh_scr(d.bank / 4, d.bank % 4) : d.type == COL ? sh_col(d.bank) : sh_grp_raw(d.bank); }
std::string nm(Dest d){ static const char* t[] = {"program", "CHR", "SCR", "GRP", "MEM$", "COL"}; return count_[d.type] ? strf("%s bank %d", t[d.type], d.bank) : t[d.type]; }
Dest resolve(const std::string& t){ // pages are 0
	Dest d; std::string b = t.substr(0, 3); int bank = t.size() > 3 ? t[3] - '0' : 0, low = t.size() > 4 && t[4] == 'L';
	if (b == "PRG") d.type = PRG; else if (b == "MEM") d.type = MEM; else if (b == "BGF") d = {CHR, 22 * low + bank}; else if (b == "BGD") d = {CHR, 22 * low + 4 + bank}; else if (b == "BGU") d = {CHR, 22 * low + 8 + bank}; else if (b == "SPU") d = {CHR, 12 + bank}; else if (b == "SPD") d = {CHR, 34 + bank}; else if (b == "SPS") d = {CHR, 22 * low + 20 + bank}; else if (b == "SCU") d = {SCR, 4 * low + 2 + bank}; else if (b == "GRP") d = {GRP, bank}; else if (b == "COL") d = {COL, 3 * low + bank}; return d; }
Dest package(int bit){ static const char* T[] = {"SPU0", "SPU1", "SPU2", "SPU3", "SPU4", "SPU5", "SPU6", "SPU7", "BGU0U", "BGU1U", "BGU2U", "BGU3U", "BGF0U", "COL0U", "COL1U", "COL2U", "SCU0U", "SCU1U", "GRP0", "GRP1", "GRP2", "GRP3", "MEM", "SPD0", "SPD1", "SPD2", "SPD3", "BGU0L", "BGU1L", "BGU2L", "BGU3L", "BGF0L", "COL0L", "COL1L", "COL2L", "SCU0L", "SCU1L", "SPS0U", "SPS1U", "BGD0U", "BGD1U", "SPS0L", "SPS1L", "BGD0L", "BGD1L"}; return resolve(T[bit]); }
std::string gen_type(G& g){ static const struct { const char* n; int banks; int pg; } T[] = {{"COL", 3, 3}, {"BGU", 4, 3}, {"BGF", 1, 3}, {"BGD", 2, 3}, {"SPU", 8, 1}, {"SPS", 2, 3}, {"SPD", 4, 2}, {"SCU", 2, 3}, {"GRP", 4, 0}, {"MEM", 0, 0}}; auto& t = T[g.below(10)]; std::string s = t.n; if (!t.banks) return s; s += '0' + g.below(t.banks); if (!t.pg) return s; return s + (t.pg == 3 ? (g.chance(1, 2) ? 'L' : 'U') : t.pg == 1 ? 'U' : 'L'); }
uint32_t le(const std::string& s, size_t o){ uint32_t v = 0; for (int i = 0; i < 4 && o + i < s.size(); ++i) v |= (uint32_t)(uint8_t)s[o + i] << 8 * i; return v; }
std::string to_le(uint32_t v){ std::string s; for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); return s; }
// reading of a bit stream with a cache, independent of the code under test; missing bits are 0. *all: no bits were missing
std::string unpack(const std::string& s, size_t o, size_t n, int bits, bool* all){
	*all = true; std::string r; if (bits < 0){ r = s.substr(std::min(o, s.size()), n); if (r.size() < n) *all = false; r.resize(n); return r; }
	size_t at = 0; auto bit = [&]{ size_t k = o + at / 8; int v = k < s.size() ? (uint8_t)s[k] >> (7 - at % 8) & 1 : 0; if (k >= s.size()) *all = false; ++at; return v; }; auto get = [&](int b){ int v = 0; for (int i = 0; i < b; ++i) v = v << 1 | bit(); return v; };
	std::vector<uint8_t> cache(1 << bits); for (int i = 0; i < 1 << bits; ++i) cache[i] = i; int next = 0; while (r.size() < n){ if (bit()){ int v = get(8); r += (char)v; cache[next] = v; next = (next + 1) % (1 << bits); } else r += (char)cache[get(bits)]; } return r; }
enum { FAIL, EITHER, OK };
struct Ref { int verdict = OK; std::map<Dest, std::string> data; std::string text, name, pkg; bool exact = true; void weaken(int v){ verdict = std::min(verdict, v); } };
// what the bytes mean as a resource of the type
Ref ref_res(const std::string& f, Dest d, bool typed, bool& mem_ok){
	Ref r; size_t n = size_[d.type], o; std::string m = f.substr(0, 4); mem_ok = true; if (f.size() < 4){ r.verdict = FAIL; return r; }
	if (m == "PX01" || m == "PETC"){ o = m == "PX01" ? 48 : 12; if (f.size() < o + n){ r.verdict = FAIL; return r; } std::string t = f.substr(o - 12, 12), w = tag[d.type]; if (t != w) r.weaken(typed && t.substr(8) != w.substr(8) ? FAIL : EITHER); r.data[d] = f.substr(o, n); }
	else if (m == "SBCC"){ if (f.size() < 9){ r.verdict = FAIL; return r; } int bits = (int8_t)f[4]; if (bits < -1 || bits > 7 || (le(f, 5) & 0xffffff) != n){ r.verdict = FAIL; return r; } bool all; r.data[d] = unpack(f, 8, n, bits, &all); if (!all) r.weaken(EITHER); }
	else r.verdict = FAIL;
	if (d.type == MEM && r.data.count(d) && le(r.data[d], 512) > 256){ mem_ok = false; r.weaken(EITHER); } return r; }
Ref ref_prg(const std::string& f, const std::string& name, bool append, bool& mem_ok){
	Ref r; mem_ok = true; std::string m = f.substr(0, 4); size_t o = m == "PX01" ? 36 : 0; if ((m != "PX01" && m != "PETC") || f.size() < o + 24){ r.verdict = FAIL; return r; } std::string t = f.substr(o, 12); if (t.substr(8) != "RPRG"){ r.verdict = FAIL; return r; } if (t != tag[PRG]) r.weaken(EITHER);
	uint64_t bits = (uint64_t)le(f, o + 12) << 32 | le(f, o + 16); size_t n = le(f, o + 20), at = o + 24; if (n > MAXPRG) { if (append){ r.weaken(EITHER); r.exact = false; return r; } r.verdict = FAIL; return r; } if (f.size() < at + n){ if (append){ r.weaken(EITHER); r.exact = false; return r; } r.verdict = FAIL; return r; }
	r.text = f.substr(at, n); r.name = o ? std::string(f.substr(12, 8).c_str()) : name; for (int i = 11; i >= 0; --i) r.pkg += "0123456789ABCDEF"[bits >> 4 * i & 15]; if (append) return r; if (!n) r.weaken(EITHER); if (bits >> 45) r.weaken(EITHER); at += (n + 3) / 4 * 4;
	for (int i = 0; i < 45; ++i) if (bits >> i & 1){ Dest d = package(i); size_t z = size_[d.type]; if (f.size() < at + 12 + z){ r.verdict = FAIL; return r; } std::string t = f.substr(at, 12), w = tag[d.type]; if (t != w) r.weaken(t.substr(8) != w.substr(8) ? FAIL : EITHER); r.data[d] = f.substr(at + 12, z); if (d.type == MEM && le(r.data[d], 512) > 256){ mem_ok = false; r.weaken(EITHER); } at += 12 + z; }
	return r; }
struct Snap { std::string bank[62], text, name, pkg; WStr mem; int err = 0; fx res = 0; };
std::vector<Dest> banks(){ std::vector<Dest> r; for (int t : {CHR, SCR, GRP, COL}) for (int i = 0; i < count_[t]; ++i) r.push_back({t, i}); return r; }
void take(Snap& s){ static const auto B = banks(); for (int i = 0; i < 62; ++i) s.bank[i].assign((char*)real(B[i]), size_[B[i].type]); int n; const char* t = sh_prg(&n); s.text.assign(t, n); s.name = sh_prgname(); s.pkg = sh_package(); uint16_t w[600]; n = sh_mem_text(w); s.mem.assign(w, w + std::max(n, 0)); }
void put(const std::string& f, const std::string& s){ FILE* o = fopen(f.c_str(), "wb"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
void run_case(G& g, Case& c){
	static const std::string home = std::filesystem::current_path(); std::string dir = home + strf("/w%d", (int)getpid()); std::filesystem::remove_all(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/resources").c_str(), 0755); mkdir((dir + "/store").c_str(), 0755); if (chdir(dir.c_str())) abort();
	struct Back { std::string d; ~Back(){ if (chdir(home.c_str())) abort(); std::filesystem::remove_all(d); } } back{dir};
	uint64_t rr = g.bits(); auto rnd = [&]{ rr = rr * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rr >> 33); }; auto bytes = [&](size_t n){ std::string s(n, 0); int st = g.below(4); uint8_t k = rnd(); for (size_t i = 0; i < n; ++i) s[i] = (char)(st == 0 ? rnd() : st == 1 ? k + rnd() % 8 : st == 2 ? i / 16 : rnd() % 9 ? 0 : rnd()); return s; };
	enum { LOAD, LOADPRG, APPEND, CHRINIT, COLINIT, EXEC, START, FILES, NK }; static const char* const K[] = {"LOAD", "LOAD a program", "APPEND", "CHRINIT", "COLINIT", "EXEC", "start", "FILES"}; int kind = g.weighted({8, 8, 4, 3, 3, 3, 2, 1});
	std::string T; Dest d; if (kind == LOAD || kind == FILES) d = resolve(T = gen_type(g)); else if (kind == CHRINIT || kind == START){ do d = resolve(T = gen_type(g)); while (d.type != CHR); } else if (kind == COLINIT){ d = {COL, (int)g.below(2)}; T = d.bank ? "SP" : "BG"; } else d = {PRG, 0}, T = "PRG";
	if (kind == START && g.chance(1, 3)){ d = {COL, (int)g.below(3)}; T = strf("COL%dU", d.bank); }
	// a valid file
	int ft = g.chance(1, 12) ? g.below(6) : d.type; std::string F, what; std::vector<size_t> marks; // offsets of fields
	auto body = [&](int t){ std::string b = bytes(size_[t]); if (t == MEM){ int n = g.chance(1, 4) ? g.pick({0, 1, 255, 256}) : g.range(0, 40); for (int i = 0; i < 256; ++i){ uint16_t w = i < n ? golden_wide[65 + (rnd() % 26)] : 0; b[2 * i] = w & 255; b[2 * i + 1] = w >> 8; } b.replace(512, 4, to_le(n)); } return b; };
	int cont = ft == PRG ? g.below(2) : g.weighted({3, 3, 3}); std::string h; if (cont == 0) h = "PX01" + to_le(rnd()) + to_le(ft) + "HEADNAME" + std::string(16, '\7');
	if (ft == PRG){
		uint64_t bits = 0; if (g.chance(1, 2)) for (int i = g.range(1, 4); i > 0; --i) bits |= 1ull << g.below(45); std::string text; int n = g.chance(1, 12) ? 0 : g.range(0, 60); if (kind == EXEC) text = "E=77\r"; for (int i = 0; i < n; ++i) text += i % 12 == 11 ? '\r' : (kind == EXEC && i % 12 == 0) ? '\'' : (char)('A' + rnd() % 26); if (kind == EXEC && n) text = "E=77\r" + ("'" + text.substr(5)); if (g.chance(1, 30)){ text += std::string(g.pick({524288, 524287, 262144, 524280}) - std::min<size_t>(text.size(), 100), '\''); if (text.size() > MAXPRG) text.resize(MAXPRG); if (kind == EXEC) text = "E=77\r"; }
		F = h + tag[PRG] + to_le(bits >> 32) + to_le((uint32_t)bits) + to_le(text.size()); size_t o = F.size(); for (size_t q : {o - 4, o - 8, o - 12, o - 24, o}) marks.push_back(q); F += text; marks.push_back(F.size()); F.resize(o + (text.size() + 3) / 4 * 4); for (int i = 0; i < 45; ++i) if (bits >> i & 1){ Dest q = package(i); marks.push_back(F.size()); F += tag[q.type]; marks.push_back(F.size()); F += body(q.type); if (q.type == MEM) marks.push_back(F.size() - 4); } what = strf("program of %zu bytes, package %012llx", text.size(), (unsigned long long)bits);
	} else {
		std::string b = body(ft); if (cont < 2){ F = h + tag[ft]; marks = {0, 4, F.size() - 12, F.size() - 4, F.size()}; F += b; if (ft == MEM) marks.push_back(F.size() - 4); }
		else { int bits = g.range(-1, 7); std::string out(b.size() * 9 / 8 + 64, 0); int n = sbc_compress((const uint8_t*)b.data(), (uint8_t*)&out[0], b.size(), bits, 8); if (n < 0) n = sbc_compress((const uint8_t*)b.data(), (uint8_t*)&out[0], b.size(), bits = -1, 8); uint32_t z = b.size(); F = std::string("SBCC") + (char)bits + (char)z + (char)(z >> 8) + (char)(z >> 16); F += out.substr(0, n); marks = {0, 4, 5, 8}; }
		what = strf("%s file", tag[ft]);
	}
	marks.push_back(F.size()); what += cont == 0 ? " PX01" : cont == 1 ? " PETC" : " SBCC"; int muts = g.weighted({3, 8, 3, 1}); bool folder = false, missing = false; size_t valid = F.size(); (void)valid;
	static const uint32_t I[] = {0, 1, 3, 4, 255, 256, 257, 511, 512, 513, 516, 8191, 8192, 8193, 49152, 65535, 65536, 524287, 524288, 524289, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffcu, 0xfffffff0u, 0x7ffffffcu};
	for (int i = 0; i < muts; ++i){
		auto off = [&](size_t lim){ size_t o = g.chance(2, 3) ? marks[g.below(marks.size())] + g.range(0, 6) - 3 : g.chance(1, 2) ? g.below(81) : g.below((int)lim + 1); if (o > lim + 1000000) o = 0; return std::min(o, lim); };
		switch (g.weighted({8, 3, 6, 8, 3, 3, 2, 1, 1, 2})){
			case 0: { size_t o = off(F.size()); F.resize(o); what += strf("; cut to %zu", o); break; }
			case 1: { int n = g.chance(1, 2) ? g.range(1, 16) : g.range(17, 20000); F += bytes(n); what += strf("; %d bytes added", n); break; }
			case 2: if (F.size()){ size_t o = off(F.size() - 1); int b = g.below(8); F[o] ^= 1 << b; what += strf("; bit %d of byte %zu flipped", b, o); } break;
			case 3: if (F.size() >= 4){ size_t o = g.chance(3, 4) ? marks[g.below(marks.size())] : off(F.size()); if (o + 4 > F.size()) o = F.size() - 4; uint32_t v = g.chance(1, 3) ? le(F, o) + g.range(0, 8) - 4 : I[g.below(26)]; int w = g.pick({1, 2, 3, 4}); F.replace(o, w, to_le(v).substr(0, w)); what += strf("; %d bytes at %zu set to %x", w, o, v); } break;
			case 4: if (F.size()){ size_t o = off(F.size() - 1); int v = g.pick({0, 255, 254, 7, 8, 127, 128, (int)g.below(256)}); F[o] = (char)v; what += strf("; byte %zu set to %d", o, v); } break;
			case 5: { size_t a = off(F.size()), n = std::min<size_t>(F.size() - a, g.range(0, 40)); if (g.chance(1, 2)){ F.erase(a, n); what += strf("; %zu bytes at %zu removed", n, a); } else { F.insert(off(F.size()), F.substr(a, n)); what += strf("; %zu bytes from %zu inserted", n, a); } break; }
			case 6: { std::string m = g.pick({"PX01", "PETC", "SBCC", "px01", "PX00", "PETc"}); if (F.size() >= 4) F.replace(0, 4, m); what += "; magic " + m; break; }
			case 7: { F = bytes(g.range(0, 600)); what += "; random bytes"; break; }
			case 8: if (g.chance(1, 2)){ F.clear(); what += "; empty"; } else if (g.chance(1, 2)) folder = true, what += "; a folder"; else missing = true, what += "; missing"; break;
			default: { int t = g.below(6); size_t o = F.compare(0, 4, "PX01") ? 0 : 36; if (F.size() >= o + 12) F.replace(o, 12, tag[t]); what += std::string("; type ") + tag[t]; }
		}
	}
	// where the program reads it from, and what it means
	std::string stmt, base, file; bool memok = true; Ref ref; int one = -1; if (folder || missing) F.clear();
	auto upper = [&]{ return T.substr(0, 4); };
	if (kind == CHRINIT || kind == START || kind == COLINIT){ file = dir + "/resources/" + (kind == COLINIT ? strf("COL%d", d.bank) : upper()) + ".PTC"; } else file = dir + "/store/F.PTC";
	if (folder) mkdir(file.c_str(), 0755); else if (!missing && kind != START && kind != CHRINIT && kind != COLINIT) put(file, F);
	if (d.type == PRG) ref = ref_prg(F, "F", kind == APPEND, memok); else ref = ref_res(F, d, kind == LOAD, memok); if (folder || missing) ref.verdict = FAIL;
	if (kind == EXEC && ref.verdict != FAIL && muts) kind = LOADPRG; // the text may be any program
	c.label(K[kind]); c.label(ref.verdict == FAIL ? "not a valid file" : ref.verdict == OK ? "valid file" : "either accepted or not"); what = std::string(K[kind]) + ": " + what;
	static std::string path; path = dir + "/store/"; uint64_t fb = g.bits(); std::string filler = strf("'%d", g.below(100000)), memt = strf("%d", g.below(1000000));
	if (kind == LOAD || kind == LOADPRG) stmt = "LOAD \"" + (kind == LOADPRG && g.chance(1, 2) ? "" : T + ":") + "F\""; else if (kind == APPEND) stmt = "APPEND \"F\""; else if (kind == CHRINIT) stmt = "CHRINIT \"" + T + "\""; else if (kind == COLINIT){ stmt = "COLINIT \"" + T + "\""; if (g.chance(1, 2)){ one = g.pick({0, 1, 255, (int)g.below(256)}); stmt += strf(",%d", one); } } else if (kind == EXEC) stmt = "EXEC \"F\""; else if (kind == FILES) stmt = "FILES"; else stmt = "R=1";
	c.text = what + "\n" + stmt; note_text(c.text); bool nontriv = muts > 0 && F.size() > 8; static const auto B = banks(); static Snap S[2], before;
	if (kind == START){ if (!folder && !missing) put(file, F); if (g.chance(1, 3)) put(dir + "/resources/" + g.pick({"makeALPHA_SHIFT.NCGR", "makeKIGOU.NCGR", "SPD6.PTC", "makeKANA.NCGR"}), bytes(g.range(0, 20000)));
		sh_new(64, 128, 4096); for (int i = 0; i < 62; ++i) if (B[i].type == d.type && B[i].bank == d.bank){ std::string got((char*)real(d), size_[d.type]), z(size_[d.type], 0); auto q = ref.data.find(d); bool same = q != ref.data.end() && got == q->second; if (!same && (ref.verdict == OK || got != z)) c.fail("%s after the start holds neither the file's contents nor nothing", nm(d).c_str()); } c.nontrivial(nontriv); return; }
	for (int run = 0; run < 2; ++run){
		Snap& s = S[run]; if (kind == CHRINIT || kind == COLINIT) std::filesystem::remove_all(file); sh_new(64, 128, 4096); sh_search_path(path.c_str()); if (folder) mkdir(file.c_str(), 0755); else if (!missing) put(file, F);
		for (int i = 0; i < 62; ++i){ uint8_t* q = real(B[i]); uint64_t z = (fb + i * 77 + run * 0x123456789ull) * 0x9E3779B97F4A7C15ull; for (size_t j = 0; j < size_[B[i].type]; j += 8){ z = z * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = z ^ z >> 29; memcpy(q + j, &v, 8); } }
		sh_set_names(run ? "BEFORE" : "EARLIER", run ? "00000000000F" : "000000000700"); std::string P = "MEM$=\"" + (run ? memt : "X" + memt) + "\"\r" + stmt + "\rR=RESULT\r" + filler + (run ? "" : "Q") + "\r"; take(before); before.text = P; before.mem = gwiden(mstr(run ? memt : "X" + memt));
		s.err = run_prog(P); s.res = get_num("R"); take(s); fx E = kind == EXEC ? get_num("E") : 0; bool changed = s.text != before.text || s.name != before.name || s.pkg != before.pkg || s.mem != before.mem, ok; std::vector<int> ch; for (int i = 0; i < 62; ++i) if (s.bank[i] != before.bank[i]) ch.push_back(i), changed = true;
		if (kind == FILES){ if (changed || s.err) c.fail("FILES changes something or ends with %s", err_name(s.err).c_str()); continue; }
		if (kind == EXEC){ if (ref.verdict == FAIL){ ok = E != 0; if (s.err || s.res) c.fail("EXEC of an unusable file: %s, RESULT %s", err_name(s.err).c_str(), fxs(s.res).c_str()); } else { ok = true; if (E != 77 << 12 || s.err) c.fail("EXEC of a valid program: %s, E is %s", err_name(s.err).c_str(), fxs(E).c_str()); s.res = 4096; } }
		else if (kind == CHRINIT || kind == COLINIT){ ok = !s.err; if (kind == COLINIT && one < 0 && !changed) ok = false; }
		else { ok = !s.err && s.res; if (kind != APPEND && s.err) c.fail("ends with %s", err_name(s.err).c_str()); if (!s.err && s.res != 0 && s.res != 4096) c.fail("RESULT is %s", fxs(s.res).c_str()); }
		if (kind == LOADPRG && !ok && s.text != before.text) ok = true; // RESULT after loading an empty program is not specified
		if (ok && ref.verdict == FAIL) c.fail("a file that is not valid is accepted (run %d)", run + 1); if (!ok && ref.verdict == OK) c.fail("a valid file is not accepted (%s, run %d)", err_name(s.err).c_str(), run + 1);
		if (!ok && changed && kind != EXEC && !(kind == LOADPRG && ref.text.empty() && ref.verdict != FAIL)) c.fail("the failed statement changed %s (run %d)", ch.size() ? nm(B[ch[0]]).c_str() : s.text != before.text ? "the program text" : s.mem != before.mem ? "MEM$" : s.name != before.name ? "PRGNAME$" : "PACKAGE$", run + 1);
		if (!ok && changed && kind == EXEC) c.fail("the failed EXEC changed something (run %d)", run + 1);
		if (ok){
			bool prg = kind == LOADPRG || kind == EXEC; for (int i = 0; i < 62; ++i){ auto q = ref.data.find(B[i]); std::string w = q == ref.data.end() ? before.bank[i] : q->second; if (q != ref.data.end() && one >= 0){ w = before.bank[i]; w.replace(2 * one, 2, q->second.substr(2 * one, 2)); } if (s.bank[i] != w) for (size_t j = 0; j < w.size(); ++j) if (s.bank[i][j] != w[j]) c.fail("%s byte %zu is %d, expected %d (run %d)", nm(B[i]).c_str(), j, (uint8_t)s.bank[i][j], (uint8_t)w[j], run + 1); }
			std::string t = prg ? ref.text : kind == APPEND && ref.exact ? (before.text + ref.text).substr(0, MAXPRG) : before.text; if (kind == APPEND && !ref.exact){ if (s.text.compare(0, before.text.size(), before.text) || s.text.size() > MAXPRG) c.fail("APPEND changed the program text in front of its end"); } else if (s.text != t) c.fail("the program has %zu bytes, expected %zu%s (run %d)", s.text.size(), t.size(), s.text.size() == t.size() ? " (other text)" : "", run + 1);
			if (s.name != (prg ? ref.name : before.name) || s.pkg != (prg ? ref.pkg : before.pkg)) c.fail("PRGNAME$ is %s, PACKAGE$ is %s, expected %s and %s", show(s.name).c_str(), s.pkg.c_str(), show(prg ? ref.name : before.name).c_str(), (prg ? ref.pkg : before.pkg).c_str());
			auto m = ref.data.find({MEM, 0}); if (m == ref.data.end()){ if (s.mem != before.mem) c.fail("MEM$ changed"); } else if (memok){ int n = le(m->second, 512); WStr w; for (int i = 0; i < n; ++i) w += (uint16_t)((uint8_t)m->second[2 * i] | (uint8_t)m->second[2 * i + 1] << 8); if (s.mem != w) c.fail("MEM$ is %s, expected %s", showw(s.mem).c_str(), showw(w).c_str()); }
			c.label("accepted");
		} else c.label("rejected");
	}
	// an incomplete program that would not fit anyway may be cut or rejected
	if (kind != FILES && !(kind == APPEND && !ref.exact && F.size() > MAXPRG - 1000) && (S[0].err != S[1].err || S[0].res != S[1].res)) c.fail("the same file gives %s, RESULT %s and %s, RESULT %s", err_name(S[0].err).c_str(), fxs(S[0].res).c_str(), err_name(S[1].err).c_str(), fxs(S[1].res).c_str()); if (!memok && kind != FILES && S[0].res && S[0].mem != S[1].mem) c.fail("MEM$ after loading depends on what was there before");
	c.nontrivial(nontriv);
}
}
const Prop the_prop = {"P23", run_case, 100000, 2000000,
	"One case = a file of any type (program with package, characters, screen, graphics, MEM, colors) in one of the three formats, changed by up to 3 mutations (cut at and around field boundaries, extended, bits flipped, size fields and types set to critical values, parts removed or repeated, other magic, random bytes, empty, a folder, missing), used by LOAD, APPEND, EXEC, CHRINIT, COLINIT, FILES or the start, twice on different previous contents. A reference reader decides whether the file must be accepted or rejected and what it holds; all 62 banks, MEM$, the program, PRGNAME$, PACKAGE$, RESULT and the error are compared. Non-trivial: a mutated file of more than 8 bytes.", nullptr};

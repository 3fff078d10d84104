// P28: the resource converter: what it writes is the file's character and colour data, readable by CHRINIT and COLINIT.
#include "model.h"
#include <unistd.h>
#include <sys/stat.h>
#include <filesystem>
namespace fs = std::filesystem;
extern "C" { int p28_convert(const char*, const char*); int p28_usage(int); void sh_redzones(bool); }
namespace {
std::string le(uint32_t v, int n){ std::string s; for (int i = 0; i < n; ++i) s += (char)(v >> 8 * i); return s; }
std::string slurp(const std::string& f){ FILE* i = fopen(f.c_str(), "rb"); if (!i) return "(none)"; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); return s; }
void put(const std::string& f, const std::string& s){ FILE* o = fopen(f.c_str(), "wb"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
std::map<std::string, std::string> folder(){ std::map<std::string, std::string> m; for (auto& e : fs::directory_iterator("resources")) m[e.path().filename().string()] = slurp(e.path().string()); return m; }
void run_case(G& g, Case& c){
	fs::remove_all("resources"); mkdir("resources", 0755); std::string d; bool ok = true, maybe = false;
	// ---- the file
	int kind = g.weighted({4, 4, 1}); bool col = kind == 1; int banks = 0; std::string data; uint32_t seed = g.bits(); int style = g.below(4);
	auto fill = [&](int n){ std::string s; uint32_t r = seed; for (int i = 0; i < n; ++i){ r = r * 1664525 + 1013904223; s += style == 0 ? (char)(i / 32 + i) : style == 1 ? (char)(r >> 24) : style == 2 ? (char)0 : (char)(r >> 28 ? 0xff : 0x1a); } return s; };
	std::string blk, file; int hole = 0;
	if (col){ int n = g.pick({512, 512, 512, 512, 544, 1024, 8192, 510, 256, 32, 0}); if (g.chance(1, 6)) n = g.below(1200); data = fill(n); blk = "TTLP" + le(0x18 + n, 4) + le(3, 4) + le(0, 4) + le(n, 4) + le(0x10, 4) + data; ok = n >= 512; d = strf("NCLR, palette of %d bytes", n); }
	else if (kind == 0){ banks = g.pick({1, 2, 4, 8, 3, 10}); int n = banks * 8192; if (g.chance(1, 12)){ n += g.range(-8191, 8191); maybe = n % 8192; banks = n / 8192; if (banks > 10) maybe = true; } data = fill(n); blk = "RAHC" + le(0x20 + n, 4) + le(n / 1024, 2) + le(32, 2) + le(3, 4) + le(0, 4) + le(0, 4) + le(n, 4) + le(0x18, 4) + data; d = strf("NCGR, characters of %d bytes", n); if (!n) maybe = true; }
	else { blk = fill(g.below(300)); ok = false; d = "another file"; }
	file = (col ? "RLCN" : kind == 0 ? "RGCN" : g.pick({"RCSN", "RLCn", "PETC", "", "R", "rgcn"})) + le(0x0100feff, 4) + le(0x10 + blk.size(), 4) + le(0x10, 2) + le(1, 2) + blk;
	if (g.chance(1, 2)){ int n = g.range(1, 64); file += std::string(n, 'Z'); d += strf(", %d bytes behind", n); hole = n; } // (other blocks)
	std::string whole = file; bool bad = false;
	if (g.chance(1, 4)){ bad = true; switch (g.below(4)){
		case 0: case 1: { uint32_t need = file.size() - hole, n = g.chance(1, 3) ? g.below(60) : g.chance(1, 3) ? need - g.range(1, 40) : g.below(need); if (n > need) n = need - 1; if (kind < 2) file.resize(n), ok = maybe = false; d += strf(", cut after %u bytes", n); break; }
		case 2: { uint32_t v = g.pick({0, 1, 0x17, 0x18, 0x1f, 0x20, -1, (int)0x80000000, 0x7fffffff, 0x21, 0x217, 0x219, 0x1000}); if (kind < 2 && file.size() >= 24){ file.replace(20, 4, le(v, 4)); uint32_t have = whole.size() - hole - 16 + hole; uint32_t h = col ? 0x18 : 0x20; ok = v >= h && v <= have && (!col || v - h >= 512); maybe = ok; } d += strf(", block size %#x", v); break; }
		default: { int k = g.range(1, 8); for (int i = 0; i < k && file.size() > 4; ++i) file[4 + g.below(file.size() - 4)] ^= 1 << g.below(8); maybe = true; d += ", damaged"; } } }
	static const std::vector<std::string> CN = {"BGU", "BGD", "BGF", "SPU", "SPS", "SPD", "XYZ"}, LN = {"COL0", "COL1", "COL2", "ABCD"};
	std::string name = col ? g.pick(LN) : g.pick(CN); if (g.chance(1, 12)){ name = g.pick({"", "A", "AB", "ABCDE", "ABCDEFGHIJKLMNOP", col ? "COL" : "BGU0"}); ok = maybe = false; } d += " as " + name + strf(" (data %x,%d)", seed, style);
	put("resources/in", file); if (g.chance(1, 3)){ put("resources/" + name + (col ? ".PTC" : "0.PTC"), std::string(20000, 'q')); d += ", over an old file"; } put("resources/OTHER.PTC", "keep");
	c.text = d; note_text(d); auto before = folder();
	if (chdir("resources")) abort(); int missing = g.chance(1, 30); int r = missing ? p28_convert("nothere", name.c_str()) : p28_convert("in", name.c_str()); int u = g.chance(1, 20) ? p28_usage(1 + g.below(2) + g.below(2)) : 1; if (chdir("..")) abort();
	if (missing) ok = maybe = false; auto after = folder(); if (!u) c.fail("wrong arguments give success");
	if (r && !maybe && ok) c.fail("reported as failed"); if (!r && !ok && !maybe) c.fail("reported as a success");
	if (r){ for (auto& f : after) if (!before.count(f.first) || before[f.first] != f.second) if (!maybe) c.fail("a failed conversion wrote %s", f.first.c_str()); }
	else if (!maybe){
		std::map<std::string, std::string> want = before; if (col) want[name + ".PTC"] = "PETC0100RCOL" + data.substr(0, 512); else for (int i = 0; i < banks; ++i) want[name + (char)('0' + i) + ".PTC"] = "PETC0100RCHR" + data.substr(8192 * i, 8192);
		for (auto& w : want){ if (!after.count(w.first)) c.fail("%s is not written", w.first.c_str()); const std::string& a = after[w.first]; if (a.size() != w.second.size()) c.fail("%s has %zu bytes, expected %zu", w.first.c_str(), a.size(), w.second.size()); for (size_t i = 0; i < a.size(); ++i) if (a[i] != w.second[i]) c.fail("%s: byte %zu is %02x, expected %02x", w.first.c_str(), i, (uint8_t)a[i], (uint8_t)w.second[i]); }
		for (auto& f : after) if (!want.count(f.first)) c.fail("%s is written besides", f.first.c_str());
		// ---- and read by the interpreter
		if (g.chance(1, 4)){ sh_redzones(false); sh_new(64, 64, 4096);
			if (col && name != "ABCD"){ int n = g.below(256); std::string p = strf("COLINIT \"%s\"\rCOLREAD(\"%s\",%d),R,G,B\r", name == "COL0" ? "BG" : name == "COL1" ? "SP" : "GRP", name == "COL0" ? "BG" : name == "COL1" ? "SP" : "GRP", n); int e = run_prog(p); if (e) c.fail("COLINIT: %s", err_name(e).c_str());
				int v = (uint8_t)data[2 * n] | (uint8_t)data[2 * n + 1] << 8; if ((get_num("R") >> 15) != (v & 31) || (get_num("B") >> 15) != (v >> 10 & 31) || (get_num("G") >> 15) != (v >> 5 & 31)) c.fail("color %d of %s is read as %d,%d,%d", n, name.c_str(), get_num("R") >> 12, get_num("G") >> 12, get_num("B") >> 12); }
			else if (!col && name != "XYZ"){ int lim = name == "SPU" ? 8 : name == "BGU" || name == "SPD" ? 4 : name == "BGF" ? 1 : 2, b = g.below(std::min(banks, lim)), n = g.below(256); std::string p = strf("CHRINIT \"%s%d\"\rCHRREAD(\"%s%d\",%d),H$\r", name.c_str(), b, name.c_str(), b, n); int e = run_prog(p); if (e) c.fail("CHRINIT of %s%d: %s", name.c_str(), b, err_name(e).c_str());
				MStr h; for (int y = 0; y < 8; ++y) for (int x = 0; x < 8; ++x){ uint8_t q = data[8192 * b + 32 * n + 4 * y + x / 2]; h += "0123456789ABCDEF"[x & 1 ? q >> 4 : q & 15]; } if (get_str("H") != gwiden(h)) c.fail("character %d of %s%d is read as something else", n, name.c_str(), b); }
			c.label("read by the interpreter"); } }
	c.label(col ? "colors" : kind == 0 ? "characters" : "other files"); c.label("damaged or cut", bad); c.label(r ? "reported" : "converted"); c.nontrivial(!r || bad);
}
}
void prop_process_init(){ std::string d = strf("w%d", (int)getpid()); mkdir(d.c_str(), 0755); if (chdir(d.c_str())) abort(); }
const Prop the_prop = {"P28", run_case, 10000, 400000,
	"One case = a conversion of an NCGR file (1 to 10 banks), NCLR file (palettes of any size) or other file, whole, cut off, with a wrong block size or damaged, in a folder with other files. The written files are compared byte by byte with the file's data, and a character or colour is read back by CHRINIT/CHRREAD or COLINIT/COLREAD. Non-trivial: converted, or a bad file.", nullptr};

// P29: a started interpreter depends on its program and inputs only, and running takes no more of its resources.
#include "proggen.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <iterator>
extern "C" { void sh_digest(u64_*); void sh_digest_more(u64_*); void sh_dump_vars(void (*)(const char*)); void sh_free_system(void); void sh_reset_memory(void); long sh_heap(void); int sh_files(void); extern int64_t sh_now; int sbc_compress(const uint8_t*, uint8_t*, int, int, int); }
namespace {
std::string dir;
void clean_dir(){ DIR* d = opendir(dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
typedef std::map<std::string, std::string> Files;
Files read_dir(){ Files f; DIR* d = opendir(dir.c_str()); if (!d) return f; while (dirent* e = readdir(d)) if (e->d_name[0] != '.'){ std::ifstream i(dir + "/" + e->d_name, std::ios::binary); f[e->d_name] = std::string(std::istreambuf_iterator<char>(i), {}); } closedir(d); return f; }
void write_dir(const Files& f){ clean_dir(); for (auto& k : f){ std::ofstream o(dir + "/" + k.first, std::ios::binary); o.write(k.second.data(), k.second.size()); } }
struct Rng { u64_ s; u32_ operator()(u32_ n){ s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32_)((s >> 33) % n); } } rng;
int hook_n; bool hook_all;
void on_sleep(){
	if (++hook_n > 600){ sh_break(); if (hook_n % 64) return; }
	if (hook_all){
		int b = rng(4) ? 0 : 1 << rng(12); if (b == 1 << 11 || rng(8)) b &= 0x7ff; sh_input(b);
		if (rng(3) == 0) sh_touch(rng(2), rng(256), rng(192)); else if (rng(3) == 0) sh_touch(false, 0, 0);
		if (rng(3) == 0){ int k = rng(6); uint16_t w = k == 0 ? '\r' : k == 1 ? sh_to_wide(rng(256)) : k == 2 ? 0xff10 + rng(10) : sh_to_wide("0123456789,.-AB"[rng(15)]); sh_inkey(w); }
	}
	sh_frame();
}
// addresses and the contents of memory are not part of what a program may rely on; TALK and files of sound are not there
std::string tame(std::string l){
	auto ren = [&](const char* w, const char* by){ size_t n = strlen(w); for (size_t i = 0; i + n <= l.size(); ++i) if (!strncasecmp(l.c_str() + i, w, n)) memcpy(&l[i], by, n); };
	ren("MEMSAFE", "TABSTEP"); ren("POKE", "PIKE"); ren("PEEK", "PICK"); ren("MEMCOPY", "MENCOPY"); ren("MEMFILL", "MENFILL"); ren("ADDR", "ADXR"); ren("PTR$", "PXR$"); return l;
}
std::string extra(G& g){
	const char* f[] = {"F1", "F2", "F3", "F4", "AB_C", "NONE"}; std::string n = f[g.below(6)];
	switch (g.below(12)){
		case 0: case 1: { const char* r[] = {"GRP0:", "GRP3:", "MEM:", "COL0:", "CHR0:", "BGU0:", "BGF0U:", "SPU1:", "SCU0:", "", "PRG:"}; if (g.chance(3, 4)) return std::string("LOAD \"") + g.pick({"MEM:F1", "GRP0:F2", "GRP2:F2", "AB_C", "COL0:F3", "COL1U:F3", "BGU0:F4", "SPU2:F4"}) + "\",0"; return "LOAD \"" + std::string(r[g.below(11)]) + n + "\",0"; }
		case 2: return "ACLS"; case 3: return "EXEC \"" + n + "\""; case 4: return "APPEND \"" + n + "\""; case 5: return "FILES"; case 6: return "CLEAR";
		case 7: return "SAVE \"" + std::string(g.pick({"GRP1:", "", "MEM:", "COL1U:", "SCU0L:", "SPU1:", "PRG:", "XX:"})) + n + "\""; case 8: return "CHRINIT \"BGF0\":COLINIT"; case 9: return "PNLTYPE \"" + std::string(g.pick({"KYA", "KYM", "KYK", "PNL", "OFF"})) + "\""; case 10: return strf("KEY %d,\"AB\"+CHR$(%d)", g.range(1, 5), g.range(0, 255));
		default: return "PRINT TIME$;DATE$;RESULT;PRGNAME$;PACKAGE$;MEM$;INKEY$();RND(100);FREEMEM;FREEVAR;TABSTEP;KEYBOARD;TCHX;TCHST;ICONPAGE;ICONPMAX;ICONPUSE;CSRX;SPHITNO;ERR;ERL;FUNCNO;MAINCNTL";
	}
}
std::string gen_program(G& g, bool wild, int max){
	PG p(g, wild); p.program(max); std::string s;
	bool early = g.chance(1, 2); for (auto& l : p.lines){ if (g.chance(1, 6) || (early && s.size() < 60)) s += extra(g) + "\r"; std::string t = tame(plain(l)); if (line_weight(t) <= 100) s += t + "\r"; }
	return s;
}
std::string desc; std::vector<std::string> vars; void dump_cb(const char* v){ vars.push_back(v); }
struct Obs { int err; bool hit; u64_ a[6], b[6]; std::vector<std::string> v; bool operator==(const Obs& o) const { return err == o.err && !memcmp(a, o.a, sizeof a) && !memcmp(b, o.b, sizeof b) && v == o.v; } };
const char* pa[] = {"the console", "the graphics pages", "the backgrounds", "the sprites", "characters and colours", "MEM$, RESULT or VISIBLE"};
const char* pb[] = {"the texts of the panel", "the keys of the panel", "the panel's state", "the keys and buttons", "the screen data", "the names or the time"};
Obs observe(){ Obs o; sh_digest(o.a); sh_digest_more(o.b); vars.clear(); sh_dump_vars(dump_cb); o.v = vars; std::sort(o.v.begin(), o.v.end()); o.err = 0; o.hit = false; return o; }
std::string differ(const Obs& x, const Obs& y){
	if (x.err != y.err) return "the result (" + err_name(x.err) + " and " + err_name(y.err) + ")";
	for (int i = 0; i < 6; ++i){ if (x.a[i] != y.a[i]) return pa[i]; if (x.b[i] != y.b[i]) return pb[i]; }
	for (size_t i = 0; i < x.v.size() || i < y.v.size(); ++i){ std::string l = i < x.v.size() ? x.v[i] : "nothing", r = i < y.v.size() ? y.v[i] : "nothing"; if (l != r) return "the variables (" + l.substr(0, 200) + " and " + r.substr(0, 200) + ")"; }
	return "nothing";
}
void blocks(Case& c, const char* when){
	uint8_t* lo = sh_membase(), *hi = lo + sh_mem_size(); std::vector<std::pair<uint8_t*, uint8_t*>> v;
	for (int i = 0; i < sh_nblocks; ++i){ auto& b = sh_blocks[i]; if (b.n < 0 || b.p < lo || b.p + b.n > hi) c.fail("%s: a block of %ld bytes at %ld is not inside the memory of %d bytes", when, b.n, (long)(b.p - lo), sh_mem_size()); if (b.n) v.push_back({b.p, b.p + b.n}); }
	std::sort(v.begin(), v.end()); for (size_t i = 1; i < v.size(); ++i) if (v[i].first < v[i - 1].second) c.fail("%s: blocks at %ld (%ld bytes) and %ld overlap", when, (long)(v[i-1].first - lo), (long)(v[i-1].second - v[i-1].first), (long)(v[i].first - lo));
	if (sh_unclear) c.fail("%s: a cleared block holds old data", when);
}
Obs run_one(const std::string& src, int opts, u64_ seed, int frames){
	rng.s = seed; hook_n = 0; sh_on_sleep = on_sleep; sh_limit(300000, 1500);
	int e = run_prog(src, opts); bool hit = sh_limit_hit();
	sh_limit(0, 0); sh_on_sleep = nullptr; sh_clear_error();
	for (int i = 0; i < frames; ++i) sh_frame();
	Obs o = observe(); o.err = e; o.hit = hit; return o;
}
void start(Case& c, const int* t, const char* when){
	sh_nblocks = 0; sh_unclear = false; sh_new(t[0], t[1], t[2]); srand(1); static std::string sp; sp = dir + "/"; sh_search_path(sp.c_str()); blocks(c, when);
}
void run_case(G& g, Case& c){
	static const int T[][3] = {{256, 128, 2048}, {32, 24, 64}, {64, 32, 300}, {2048, 4096, 262144}, {1024, 1000, 9999}};
	const int* t = T[g.below(5)], *t2 = T[g.below(5)]; bool wild = g.chance(1, 2);
	std::string B = gen_program(g, wild, 8), A = gen_program(g, true, 6); int opts = g.weighted({4, 1, 2}), frames = g.chance(1, 2) ? g.range(1, 40) : 0; hook_all = g.chance(1, 2); u64_ seed = g.bits(), fill = g.bits() | 1; bool used = g.chance(2, 3), exit_ = g.chance(1, 2); sh_now = 1000000000 + g.range(0, 500000000);
	c.text = strf("tables %d %d %d, opts %d, frames %d, keys %d, seed %llu, memory %s\n", t[0], t[1], t[2], opts, frames, hook_all, (unsigned long long)seed, used ? "used by another program" : "random") + show(B) + (used ? "--- before it\n" + show(A) : ""); note_text(c.text);
	sh_raw = true; sh_redzones(false); struct Off { ~Off(){ sh_raw = false; sh_redzones(true); sh_now = -1; sh_on_sleep = nullptr; } } off;
	// files of every format
	sh_fill_arena(0); start(c, t, "first start"); clean_dir();
	bool files = B.find("\"F") != std::string::npos || B.find("AB_C") != std::string::npos || B.find("FILES") != std::string::npos; Files F;
	Obs init = observe();
	if (g.chance(1, 8)){ // what ACLS clears is clear from the start
		if (int e = run_prog("ACLS\r")) c.fail("ACLS at the start ends with %s", err_name(e).c_str());
		Obs o = observe(); o.err = init.err; std::string d = differ(init, o); if (d != "nothing") c.fail("ACLS right after the start changes %s", d.c_str()); c.label("ACLS at the start");
	}
	if (files){
		run_prog("MEM$=\"saved\":SAVE \"MEM:F1\":GFILL 3,3,90,90,7:SAVE \"GRP0:F2\":SAVE \"AB_C\"\r"); run_prog("SAVE \"COL0:F3\":SAVE \"BGF0U:F4\"\r"); F = read_dir(); static const char* fm[] = {"as saved", "without header", "compressed", "cut", "strange"};
		for (auto& k : F){ size_t head = k.second.compare(0, 4, "PETC") ? 48 : 12; std::string body = k.second.size() > head ? k.second.substr(head) : ""; int w = g.weighted({3, 1, 4, 1, 1}); c.text += strf("file %s %s\n", k.first.c_str(), fm[w]);
			if (w == 1) k.second = body;
			else if (w == 2){ std::string out(body.size() * 9 / 8 + 64, 0); int bits = g.range(-1, 7); int n = sbc_compress((const uint8_t*)body.data(), (uint8_t*)&out[0], body.size(), bits, 8); if (n < 0) n = sbc_compress((const uint8_t*)body.data(), (uint8_t*)&out[0], body.size(), bits = -1, 8); out.resize(n < 0 ? 0 : n); u32_ z = body.size(); k.second = std::string("SBCC") + (char)bits + (char)z + (char)(z >> 8) + (char)(z >> 16) + out; }
			else if (w == 3) k.second.resize(g.below((u32_)k.second.size() + 1)); else if (w == 4){ for (int i = 0; i < 6; ++i) if (!k.second.empty()) k.second[g.below(std::min<u32_>(64, k.second.size()))] = (char)g.below(256); } }
		note_text(c.text); c.label("uses files");
		start(c, t, "first start");
	}
	// 1: on cleared memory
	write_dir(F); uint8_t* top = sh_memnext(); Obs one = run_one(B, opts, seed, frames);
	// the same program again: nothing is used up
	srand(1); rng.s = seed; hook_n = 0; sh_on_sleep = on_sleep; sh_limit(300000, 1500); int fd0 = sh_files(); long heap0 = sh_heap();
	sh_run(B.data(), (int)B.size(), opts);
	long heap1 = sh_heap(); int fd1 = sh_files(); sh_limit(0, 0); sh_on_sleep = nullptr; sh_clear_error();
	if (sh_memnext() != top) c.fail("running the program took %ld bytes of the interpreter's memory, which is never given back", (long)(sh_memnext() - top));
	if (fd1 != fd0) c.fail("running the program leaves %d more files open", fd1 - fd0);
	if (heap1 != heap0) c.fail("running the program keeps %ld more bytes of memory", heap1 - heap0);
	sh_free_system();
	// 2: on memory that holds something else
	sh_fill_arena(fill);
	if (used){ write_dir(F); start(c, t2, "another start"); run_one(A, g.weighted({4, 1, 2}), seed ^ fill, 3); sh_test_mode(true); if (exit_) sh_free_system(); }
	start(c, t, "second start");
	Obs init2 = observe(); if (!(init == init2)) c.fail("a fresh start differs in %s when the memory held other data", differ(init, init2).c_str());
	write_dir(F); Obs two = run_one(B, opts, seed, frames);
	c.label(one.hit || two.hit ? "stopped by the limit" : "ended"); c.label(one.err ? "ends with " + err_name(one.err) : "runs to the end"); c.label(used ? "memory used before" : "random memory");
	if (!one.hit && !two.hit && !(one == two)) c.fail("the program's effect on %s depends on what the memory held before the start", differ(one, two).c_str());
	c.nontrivial(B.size() > 60 && !one.hit && (one.v.size() > 1 || memcmp(one.a, init.a, sizeof one.a)));
	// ACLS restores the start of everything it clears
	int e = run_prog("CLEAR:GCOLOR 0:ACLS\r"); if (e && e != ERR_OUT_OF_MEMORY) c.fail("ACLS ends with %s", err_name(e).c_str());
}
}
void prop_process_init(){ dir = strf("fs.%d", (int)getpid()); mkdir(dir.c_str(), 0777); }
const Prop the_prop = {"P29", run_case, 6000, 400000,
	"One case = a grammar-derived program (all commands and system variables, with file, panel, key and colour commands added; files as saved, headerless, compressed, cut and damaged) run three times with the interpreter's real block allocator: on a system in cleared memory, again on the same system, and on a system in memory filled with random bytes or left behind by another system with other tables and another program. Result, variables, console, graphics, backgrounds, sprites, characters, colours, panel, keys, input, screens and names must be the same; the blocks of every start must be disjoint, inside the memory and cleared; the second run may take no memory, heap or file handle. Non-trivial: more than 60 characters, not stopped by the work limit, and with an effect.", nullptr};

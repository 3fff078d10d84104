// P09: any source text is run or rejected without corrupting the interpreter.
#include "proggen.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
namespace {
std::string dir;
void clean_dir(){ DIR* d = opendir(dir.c_str()); if (!d) return; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); }
struct Rng { u64_ s; u32_ operator()(u32_ n){ s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32_)((s >> 33) % n); } } hook_rng;
int hook_n, hook_keys; bool hook_all;
void on_sleep(){
	if (++hook_n > 1500){ sh_break(); if (hook_n % 64) return; }
	if (hook_all){
		int b = hook_rng(4) ? 0 : 1 << hook_rng(12); if (b == 1 << 11 || hook_rng(8)) b &= 0x7ff; sh_input(b);
		if (hook_rng(3) == 0) sh_touch(hook_rng(2), hook_rng(256), hook_rng(192)); else if (hook_rng(3) == 0) sh_touch(false, 0, 0);
		if (hook_rng(3) == 0){ int k = hook_rng(6); uint16_t w = k == 0 ? '\r' : k == 1 ? sh_to_wide(hook_rng(256)) : k == 2 ? 0xff10 + hook_rng(10) : sh_to_wide("0123456789,.-AB"[hook_rng(15)]); sh_inkey(w); }
	}
	sh_frame();
}
const char* words[] = {
	"PRINT","LOCATE","COLOR","DIM","FOR","TO","STEP","NEXT","IF","THEN","ELSE","GOTO","GOSUB","ON","RETURN","END","STOP","CLS","VISIBLE","ACLS","VSYNC","WAIT","INPUT","LINPUT","APPEND","BEEP","BGCLIP","BGCLR","BGCOPY","BGFILL","BGMCLEAR","BGMPLAY","BGMPRG","BGMSET","BGMSETD","BGMSETV","BGMSTOP","BGMVOL","BGOFS","BGPAGE","BGPUT","BGREAD","BREPEAT","CHRINIT","CHRREAD","CHRSET","CLEAR","COLINIT","COLREAD","COLSET","CONT","DATA","DELETE","DTREAD","EXEC","FILES","GBOX","GCIRCLE","GCLS","GCOLOR","GCOPY","GDRAWMD","GFILL","GLINE","GPAGE","GPAINT","GPRIO","GPSET","GPUTCHR","ICONCLR","ICONSET","KEY","LIST","LOAD","NEW","PNLSTR","PNLTYPE","READ","REBOOT","RECVFILE","REM","RENAME","RESTORE","RSORT","RUN","SAVE","SENDFILE","SORT","SPANGLE","SPANIM","SPCHR","SPCLR","SPCOL","SPCOLVEC","SPHOME","SPOFS","SPPAGE","SPREAD","SPSCALE","SPSET","SPSETV","SWAP","TMREAD","TALK","TALKSTOP",
	"ABS","ASC","ATAN","BGCHK","BGMCHK","BGMGETV","BTRIG","BUTTON","CHKCHR","CHR$","COS","DEG","EXP","FLOOR","GSPOIT","HEX$","ICONCHK","INKEY$","INSTR","LEFT$","LEN","LOG","MID$","PI","POW","RAD","RIGHT$","RND","SGN","SIN","SPCHK","SPGETV","SPHIT","SPHITRC","SPHITSP","SQR","STR$","SUBST$","TAN","VAL","TALKCHK","PEEK","PEEKH","PEEKB","ADDR","PTR$","NOT","AND","OR","XOR",
	"TRUE","FALSE","CANCEL","ICONPUSE","ICONPAGE","ICONPMAX","ERR","ERL","RESULT","PRGNAME$","PACKAGE$","TCHX","TCHY","TCHST","TCHTIME","CSRX","CSRY","TABSTEP","VERSION","MEM$","KEYBOARD","FUNCNO","FREEMEM","FREEVAR","MAINCNTL","MAINCNTH","SPHITNO","SPHITX","SPHITY","SPHITT","TIME$","DATE$","[ENDIF]" };
const char* bits[] = {"+","-","*","/","%","=","==","!=","<",">","<=",">=","!","(",")","[","]",",",";",":","\"","'","@","&H","&B","?"," ","\r","$",".","A","B$","I","C[","D$[","0","1","2","-1","255","1E5","524287","65536","0.5","&HFFFF","&B101","\"\"","\"ABC\"","\"@L0\"","@L0","@L1","\"GRP0\"","\"BGU0\"","LONGVARIABLENAME","LONGVARIABLENAMES"};
std::string soup_item(G& g){ int k = g.weighted({3, 5, 1}); if (k == 0) return words[g.below(sizeof words / sizeof *words)]; if (k == 1) return bits[g.below(sizeof bits / sizeof *bits)]; return std::string(1, (char)g.below(256)); }
// Lines of at most 100 characters; nothing that is documented as unsafe (turning memory safety off, writing to
// arbitrary addresses of the interpreter's own memory).
std::string tame(const std::string& s, bool pokes){
	std::string o, l; auto flush = [&]{ if (l.size() > 100) l.resize(100);
		auto ren = [&](const char* w, const char* by){ size_t n = strlen(w); for (size_t i = 0; i + n <= l.size(); ++i) if (!strncasecmp(l.c_str() + i, w, n)) memcpy(&l[i], by, n); };
		ren("MEMSAFE", "TABSTEP"); if (!pokes){ ren("POKE", "PIKE"); ren("MEMCOPY", "MENCOPY"); ren("MEMFILL", "MENFILL"); } o += l; l.clear(); };
	for (char ch : s){ if (ch == '\r'){ flush(); o += '\r'; } else l += ch; } flush(); return o;
}
std::string safe_poke(G& g){
	auto addr = [&](int room){ if (g.chance(1, 4)) return std::string(g.pick({"0", "-1", "100", "524287", "8191.9997", "10240", "-524287", "ADDR(\"GRP9\")", "10239.9998"})); return strf("ADDR(\"%s\",%d)", g.pick({"GRP0", "GRP1", "GRP2", "GRP3"}), g.range(0, 49151 - room)); };
	switch (g.below(5)){
		case 0: return "POKE " + addr(4) + "," + std::to_string(g.range(-500000, 500000));
		case 1: return "POKEH " + addr(2) + "," + std::to_string(g.range(-500000, 500000));
		case 2: return "POKEB " + addr(1) + "," + std::to_string(g.range(-500000, 500000));
		case 3: { int n = g.chance(1, 8) ? -1 : g.range(0, 3000); return "MEMCOPY " + addr(3000) + "," + addr(3000) + "," + std::to_string(n); }
		default: { int n = g.chance(1, 8) ? -1 : g.range(0, 3000); return "MEMFILL " + addr(3000) + "," + std::to_string(g.range(-1, 300)) + "," + std::to_string(n); }
	}
}
std::string grammar(G& g){
	PG p(g, true); p.program(10); std::string s;
	for (auto& l : p.lines){ std::string t = plain(l); if (line_weight(t) <= 100 || g.chance(1, 4)) s += tame(t, false) + "\r"; if (g.chance(1, 40)) s += safe_poke(g) + "\r"; }
	return s;
}
std::string mutate(G& g, std::string s){
	for (int i = 0; g.item(i, 1, 12, 2, 3); ++i){
		if (s.empty()) s = "\r"; u32_ p = g.below((u32_)s.size());
		switch (g.below(10)){
			case 9: { size_t q = s.find(g.pick({"\"", "DATA ", "@", "&H", "="}), p); if (q != std::string::npos) p = (u32_)q + (s[q] == 'D' ? 5 : s[q] == '&' ? 2 : 1); std::string w = g.pick({"A", "1", "x,", " ", "0", "\"a\","}), t; for (int n = g.range(60, 400); (int)t.size() < n;) t += w; s.insert(p, t); break; }
			case 0: s.erase(p, 1); break;
			case 1: s.insert(p, 1, (char)g.below(256)); break;
			case 2: s[p] = (char)g.below(256); break;
			case 3: s.insert(p, soup_item(g)); break;
			case 4: { u32_ n = g.range(1, 8); s.erase(p, n); break; }
			case 5: { u32_ q = g.below((u32_)s.size()), n = g.range(1, 20); s.insert(p, s.substr(q, n)); break; }
			case 6: s[p] = " \r:,;()[]\"'@$=+-"[g.below(16)]; break;
			case 7: { u32_ q = g.below((u32_)s.size()); std::swap(s[p], s[q]); break; }
			default: { size_t e = s.find('\r', p); if (e != std::string::npos) s.erase(e, 1); } break;
		}
	}
	return s;
}
const char probe[] =
	"CLEAR:ACLS:TABSTEP=4:LOCATE 0,0\r"
	"A=3*(4+5)/2:A$=\"HELLO\"+STR$(A)\r"
	"DIM D[5]:FOR I=0 TO 4:D[I]=I*I:NEXT\r"
	"S=0:FOR I=4 TO 0 STEP -1:S=S+D[I]:NEXT\r"
	"GOSUB @P1\r"
	"IF A$==\"HELLO13.5\" THEN C=1 ELSE C=2\r"
	"GPAGE 0,0,0:GCLS 3:GDRAWMD 0:GPSET 5,6,7:Q=GSPOIT(5,6)*100+GSPOIT(6,6)\r"
	"BGPAGE 0:BGCLR:BGPUT 0,3,4,5,6,1,0:BGREAD(0,3,4),R,Z,Z,Z\r"
	"SPPAGE 0:SPCLR:SPSET 3,5,2,0,0,1:SPOFS 3,20,30:SPREAD(3),X,Y\r"
	"READ M,N$:RESTORE @Q1:READ N$\r"
	"MEM$=\"ab\"*3:B$=MEM$\r"
	"ON 1 GOSUB @P1,@P2\r"
	"PRINT \"OK\",S;A$\r"
	"END\r"
	"@P1:P=P+1:RETURN\r"
	"@P2:P=P+10:RETURN\r"
	"DATA 7,\"x y\"\r"
	"@Q1\r"
	"DATA \"last\"\r";
// one statement per line, each run by itself on the same system: an error ends only its own line
std::string probing(G& g){
	PG p(g, true); p.edge = true; std::string s = g.pick({"DIM D[12],E[4,5],F$[9],G$(4,4):A=5:B=-3:C=99:B$=\"xyz\"\r", "A=1\r"}); p.nlab = 0;
	if (g.chance(3, 4)) s += g.pick({"FOR I=0 TO 99:SPSET I,I,0,0,0,0:NEXT:I=0\r", "SPSET 0,511,15,1,1,3,64,64:SPSET 3,4,2,0,0,1,8,16:SPSET 99,1,2,0,1,0\r", "SPPAGE 1:FOR I=0 TO 20:SPSET I,I,0,0,0,0,32,32:SPCOL I,0,0,16,16,1:NEXT:I=0\r"});
	if (g.chance(1, 2)) s += g.pick({"PNLTYPE \"KYA\"\r", "PNLTYPE \"PNL\":ICONPUSE=1:ICONPMAX=3\r", "A$=\"Q\"*256:B$=A$:S$=A$\r", "GPAGE 1,3,2:GDRAWMD 1\r", "BGPAGE 1:BGFILL 0,0,0,63,63,65535\r", "LOCATE 31,23\r"});
	for (int i = 0; g.item(i, 2, 40, 12, 13); ++i){ Line l; p.simple(l, g.weighted({5, 2, 1})); std::string t = plain(l); if (line_weight(t) <= 100) s += tame(t, false) + "\r"; if (g.chance(1, 40)) s += safe_poke(g) + "\r"; }
	return s;
}
void run_case(G& g, Case& c){
	int mode = g.weighted({6, 3, 2, 1, 4}); std::string src;
	if (mode == 4) src = probing(g);
	else if (mode == 0) src = grammar(g);
	else if (mode == 1) src = mutate(g, grammar(g));
	else if (mode == 2){ for (int i = 0; g.item(i, 1, 120, 40, 41); ++i){ std::string w = soup_item(g); if (!src.empty() && isalnum((u8_)src.back()) && isalnum((u8_)w[0]) && g.chance(4, 5)) src += ' '; src += w; if (g.chance(1, 8)) src += '\r'; } }
	else { bool ascii = g.chance(1, 2); for (int i = 0; g.item(i, 0, 400, 150, 151); ++i) src += (char)(ascii ? (g.chance(1, 20) ? '\r' : g.range(32, 126)) : (int)g.below(256)); }
	src = tame(src, mode == 0 || mode == 4); if (g.chance(9, 10) && (src.empty() || src.back() != '\r')) src += '\r';
	int tab = g.weighted({6, 2, 2, 1}); int opts = g.weighted({4, 1, 1, 1, 3, 1, 1, 1}); hook_all = g.chance(1, 2); bool wait = hook_all && g.chance(1, 3); hook_rng.s = g.bits(); int again = g.chance(1, 6);
	static const int T[][3] = {{256, 128, 2048}, {32, 24, 64}, {64, 32, 300}, {512, 4096, 65536}};
	c.text = show(src) + strf("mode=%d tables=%d opts=%d wait=%d keys=%d again=%d seed=%llu", mode, tab, opts, wait, hook_all, again, (unsigned long long)hook_rng.s); note_text(c.text);
	auto upper = [](std::string s){ for (char& x : s) x = toupper(x); return s; }; std::string U = upper(src);
	auto has = [&](const char* w){ return U.find(w) != std::string::npos; };
	sh_redzones(!has("PEEK") && !has("ADDR") && !has("MEMCOPY"));
	sh_new(T[tab][0], T[tab][1], T[tab][2]); srand(1);
	static std::string sp; sp = dir + "/"; sh_search_path(sp.c_str());
	run_prog("MEMSAFE=TRUE\r"); bool files = has("SAVE") || has("LOAD") || has("EXEC") || has("FILES") || has("APPEND") || has("DELETE") || has("RENAME");
	hook_n = 0; sh_on_sleep = on_sleep;
	if (files){ clean_dir(); c.label("uses files"); run_prog("MEM$=\"saved\":SAVE \"MEM:F1\":SAVE \"GRP0:F2\":SAVE \"AB_C\"\r"); run_prog("SAVE \"COL0:F3\":SAVE \"CHR:F4\"\r"); }
	sh_test_mode(!wait); sh_limit(300000, 1500);
	int e = 0; bool hit = false;
	if (mode == 4){ size_t q = 0; int worked = 0; for (size_t r; (r = src.find('\r', q)) != std::string::npos; q = r + 1){ sh_limit(30000, 300); hook_n = 0; int f = run_prog(src.substr(q, r + 1 - q), opts & ~2); if (f) e = f; else ++worked; hit |= sh_limit_hit(); } c.label("statements of the last kind that worked", worked); }
	else { e = run_prog(src, opts); hit = sh_limit_hit(); }
	if (again){ sh_limit(100000, 700); e = run_prog(src, opts ^ 2); }
	sh_limit(0, 0); sh_on_sleep = nullptr; sh_test_mode(true); sh_clear_error(); sh_input(0); sh_touch(false, 0, 0);
	static const char* mn[] = {"grammar-derived", "mutated", "token soup", "random bytes", "statements run one by one"}; c.label(std::string("text: ") + mn[mode]); c.label(hit ? "stopped by the limit" : "ended"); c.label(e ? "ends with " + err_name(e) : "runs to the end"); c.label(strf("tables %d", tab));
	c.nontrivial(src.size() > 40 && e != 3);
	e = run_prog(probe, 0);
	if (e == ERR_OUT_OF_MEMORY && ((opts & 2) || again) && sh_var_count() == sh_vars_max()){ c.label("names of compiled variables fill the table"); return; } // CLEAR keeps those names
	if (e) c.fail("afterwards a correct program ends with %s", err_name(e).c_str());
	struct { const char* n; int v; } want[] = {{"A", 13 * 4096 + 2048}, {"S", 30 << 12}, {"C", 1 << 12}, {"Q", 703 << 12}, {"R", 5 << 12}, {"X", 20 << 12}, {"Y", 30 << 12}, {"M", 7 << 12}, {"P", 11 << 12}, {"I", -(1 << 12)}};
	for (auto& w : want) if (get_num(w.n) != w.v) c.fail("afterwards a correct program computes %s=%s instead of %s", w.n, fxs(get_num(w.n)).c_str(), fxs(w.v).c_str());
	if (get_str("A$") != gwiden(mstr("HELLO13.5")) || get_str("N$") != gwiden(mstr("last")) || get_str("B$") != gwiden(mstr("ababab"))) c.fail("afterwards a correct program computes wrong strings %s %s %s", showw(get_str("A$")).c_str(), showw(get_str("N$")).c_str(), showw(get_str("B$")).c_str());
	WStr row, exp = gwiden(mstr("OK  30HELLO13.5")); for (size_t i = 0; i < exp.size(); ++i) row += sh_con_char((int)i, 0);
	for (auto& x : row) if (!x) x = gwiden(mstr(" "))[0];
	if (row != exp) c.fail("afterwards a correct program prints %s", showw(row).c_str());
}
}
void prop_process_init(){ dir = strf("fs.%d", (int)getpid()); mkdir(dir.c_str(), 0777); }
const Prop the_prop = {"P09", run_case, 60000, 3000000,
	"One case = one source text (grammar-derived over all commands, functions and system variables with boundary and wrong-typed arguments; such texts with byte and token mutations; token soup; random bytes; statements run one by one after the objects they use were set up, arguments at the ends of their ranges), compiled with random options and run on a system with default or small tables while keys, buttons and touches arrive, with AddressSanitizer, bounds checks, red zones in the interpreter's own arena and its assertions enabled; afterwards a fixed probe program must give exactly its known results on the same system. Non-trivial: more than 40 characters.", nullptr};

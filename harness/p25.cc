// P25: DIRECT mode sessions: what launch_system does with typed lines, programs and closing the window, against
// the same lines and programs run one by one.
#include "model.h"
#include <unistd.h>
#include <sys/stat.h>
#include <filesystem>
extern "C" { int sh_launch(const char*); int sh_entering(); int sh_running_error(); void sh_close(); void sh_say(const char*); void sh_set_result(int); extern void (*sh_at_print)(); void sh_print_budget(long); void sh_set_names(const char*, const char*); void sh_digest(uint64_t out[6]); const char* sh_error_info(); }
namespace {
const char* const MSG[] = {"OK", "BC_SMALL_NUMBER data out of range", "Invalid command ID", "Invalid function ID", "Invalid operator ID", "Invalid bytecode", "Failed to create variable", "PRINT - Invalid operator provided", "PRINT - Invalid stack item", "Operator types do not match", "Functionality currently unimplemented", "Operator argument types invalid", "Operator argument type invalid", "Can't assign to literal", "Can't assign to provided type", "Can't find a matching FOR for this NEXT", "Missing variable initialization in FOR", "Can't find ELSE or ENDIF", "Wrong type provided", "RETURN without GOSUB", "Command should not exist", "Handling for type is unspecified", "Resource type is invalid", "String too long", "Wrong number of arguments", "Label not found", "No arguments provided", "Missing semicolon", "READ command failed", "Out of DATA", "Type mismatch (function)", "Syntax error"};
// the errors that programs here run into, by what they mean
// the text refers to exactly this label (which may come with its @)
bool names_label(const std::string& seen, std::string info){
	if (!info.empty() && info[0] == '@') info.erase(0, 1); if (info.empty()) return false;
	for (size_t at = 0; (at = seen.find("@" + info, at)) != seen.npos; ++at){ char z = at + 1 + info.size() < seen.size() ? seen[at + 1 + info.size()] : 0; if (!isalnum((uint8_t)z) && z != '_') return true; }
	return false; }
std::string message(int e){ if (e >= 0 && e < (int)(sizeof MSG / sizeof *MSG)) return MSG[e]; switch (e){ case ERR_DIVIDE_BY_ZERO: return "Division by zero!"; case ERR_OVERFLOW: return "Overflow!"; case ERR_OUT_OF_RANGE: return "Argument out of range!"; case ERR_SUBSCRIPT_OUT_OF_RANGE: return "Subscript out of range"; case ERR_DUPLICATE_DIM: return "Duplicate definition"; case ERR_OUT_OF_MEMORY: return "Out of memory"; case ERR_BREAK: return "Program manually stopped"; case ERR_ILLEGAL_FUNCTION_CALL: return "Illegal function call"; case ERR_SHUTDOWN: return "Shutdown started"; default: return sh_error_text(e); } }
struct Shot { std::vector<uint16_t> cells; std::vector<uint8_t> cols; int x, y; int64_t time; uint64_t h[6]; };
struct File { std::string name, text; };
// one side of the comparison
struct Script { std::vector<std::string> lines; std::vector<int> burst, select; int close_sleep = -1; } S;
std::vector<Shot> shots; size_t next_line; std::string pending; int busy, select_left; bool closed; long sleeps; bool live;
Shot shot(){ Shot s; for (int y = 0; y < 24; ++y) for (int x = 0; x < 32; ++x){ s.cells.push_back(sh_con_char(x, y)); s.cols.push_back(sh_con_col(x, y)); } sh_con_pos(&s.x, &s.y); s.time = sh_time(); sh_digest(s.h); return s; }
void close_now(){ closed = true; sh_close(); }
bool endless; void give_up(){ endless = true; close_now(); } // a program that never ends nor waits
void on_sleep(){
	++sleeps; if (closed){ sh_inc_time(1); if (live && sleeps > 200000) sh_close(); return; }
	int b = 0; if (S.close_sleep >= 0 && sleeps > S.close_sleep && next_line >= S.lines.size()){ close_now(); return; }
	if (sh_entering()){
		if (pending.empty()){ shots.push_back(shot()); busy = 0; if (next_line >= S.lines.size()){ close_now(); return; } pending = S.lines[next_line++] + "\r"; if (pending[0] == '\1'){ pending.clear(); b = 1 << 11; } }
		if (!b){ int n = S.burst[(next_line - 1) % S.burst.size()]; if (n > (int)pending.size()) n = pending.size(); for (int i = 0; i < n; ++i) sh_inkey(pending[i] == '\r' ? '\r' : golden_wide[(uint8_t)pending[i]]); pending.erase(0, n); }
	} else if (next_line && S.select[next_line - 1] == ++busy) b = 1 << 11;
	else if (busy > 400) b = busy & 1 ? 0 : 1 << 11; // endless
	sh_input(b); sh_inc_time(1);
}
void start(){ shots.clear(); next_line = 0; pending.clear(); busy = 0; closed = false; sleeps = 0; sh_set_time(0); sh_test_mode(false); sh_on_sleep = on_sleep; }
// programs end in at most one hop to a program, guarded by a counter
struct Prg { std::string pre; int kind = 0; std::string target; int guard = 0; std::string rest; std::string text; };
void run_case(G& g, Case& c){
	sh_redzones(false); char cwd[512]; if (!getcwd(cwd, sizeof cwd)) return; static int pid; if (pid != getpid()) pid = getpid(); std::string root = std::string(cwd) + strf("/p25.%d", pid), da = root + "/a/", db = root + "/b/"; std::filesystem::remove_all(root); std::filesystem::create_directories(da); std::filesystem::create_directories(db);
	S = Script(); std::map<std::string, Prg> prg; std::map<std::string, std::string> head; int specials = 0, errors = 0;
	const std::vector<std::string> NAMES = {"P1", "P2", "LONGNAME"}; int np = g.range(1, 3);
	auto stmt = [&](bool inprg) -> std::string { switch (g.weighted({6, 6, 3, 3, 2, 2, inprg ? 3 : 0, 2, 2, inprg ? 1 : 0, 1, 1, 2, 1})){
		case 0: return g.pick({"A=A+1", "B=B*2-A", "A=5", "C=RESULT", "S$=S$+\"X\"", "S$=\"AB\"", "A=-A/3", "D[3]=A"});
		case 1: return g.pick({"?A;B", "?S$;A", "?D[3],LEN(S$)", "?\"HI\"", "?A,B,\"Q\"", "?RESULT;PRGNAME$", "?CSRX;CSRY", "?1;", "?ERR"});
		case 2: return g.pick({"FOR I=1 TO 3:?I;:NEXT", "FOR I=A TO A+2:S$=S$+\"Y\":NEXT", "FOR I=3 TO 1 STEP -1:?I:NEXT"});
		case 3: return g.pick({"LOCATE 3,20", "COLOR 5", "CLS", "LOCATE 31,23", "COLOR 3,7", "LOCATE 30,23:?\"ABC\";", "BGPUT 0,1,2,3", "GPSET 4,5,6"});
		case 4: return g.pick({"WAIT 2", "WAIT 7", "VSYNC 1"});
		case 5: ++errors; if (g.chance(1, 4)){ std::string n(g.chance(1, 2) ? g.range(14, 16) : g.range(1, 16), 'X'); for (char& z : n) z = "QXZ"[g.below(3)]; switch (g.below(3)){ case 0: return "GOTO @" + n; case 1: return "GOSUB \"@" + n + "\""; default: return "RESTORE @" + n; } } return g.pick({"?1/0", "GOTO @NOPE", "RETURN", "NEXT", "A=\"X\"", "?D[99]", "LOCATE", "COLOR 99", "?ASC(\"\")", "DIM D[5]", "READ A", "GOSUB \"@GONE\"", "A=500000+500000"});
		case 6: return g.pick({"GOSUB @SB", "IF A>3 THEN ?\"BIG\" ELSE ?\"SMALL\"", "READ A:?A", "READ A,B:?A;B", "RESTORE @DT:READ B", "IF B<0 THEN END", "ON A GOTO @NX,@NX", "GOSUB @SB:?\"BACK\"", "IF A<0 THEN STOP"});
		case 7: return g.pick({"TABSTEP=8", "SWAP A,B", "T$=S$", "B=LEN(T$)", "A=FLOOR(B/2)"});
		case 8: return g.pick({"INPUT X", "LINPUT T$", "INPUT \"N\";X,Y", "LINPUT \"T\";T$"});
		case 9: return g.pick({"FOR J=1 TO 9", "GOSUB @NX", "A=", "?(1", "FOR A=1 TO 2"});
		case 10: return g.pick({"END", "STOP", "REM NOTHING", "'X"});
		case 11: return g.pick({"MEM$=\"KEEP\"", "MEM$=S$", "?MEM$"});
		case 12: return g.pick({"?FREEVAR", "?CODE$", "CODE$=\"?7\"", "E$[2]=S$"});
		default: return g.pick({"CLEAR", "CLEAR:?FREEVAR"}); } };
	bool fullvars = g.chance(1, 4);
	for (int i = 0; i < np; ++i){
		Prg p; p.kind = g.weighted({3, 2, 3, 2}); if (p.kind == 2 || p.kind == 3) p.target = g.chance(1, 12) ? "NONE" : NAMES[g.below(np)]; p.guard = g.range(2, 4);
		p.pre = g.chance(1, 4) ? "DATA 4,5,6\rZZ=0\r" : "ZZ=0\r"; bool clr = p.kind == 0; int n = g.range(0, 8); for (int k = 0; k < n; ++k){ std::string s = stmt(true); if (!clr && s.find("CLEAR") != s.npos) s = "?\"-\""; p.pre += s + "\r"; }
		if (fullvars && g.chance(1, 2)){ p.pre += g.chance(1, 2) && clr ? "CLEAR\r" : ""; for (int k = g.range(10, 70); k > 0; --k) p.pre += strf("V%d=1%s", k, k % 4 && k != 1 ? ":" : "\r"); }
		if (p.pre.back() != '\r') p.pre += '\r'; p.pre += "@NX\r"; if (g.chance(1, 2)){ std::string t = stmt(true); p.pre += (t.compare(0, 4, "ON A") == 0 ? "?A" : t) + "\r"; } if (!clr){ size_t q; while ((q = p.pre.find("CLEAR")) != p.pre.npos) p.pre.replace(q, 5, "A=A"); }
		std::string tail = "END\r@SB\r?\"S\";A\rA=A+1\rRETURN\r@DT\rDATA 7\rDATA -2,3\rDATA \"T\",5\r"; // reached by the statements above, before the hop only
		p.pre += "N=N+1:ZZ=1\r"; std::string hop;
		switch (p.kind){ case 0: break; case 1: hop = strf("IF N<%d THEN RUN\r", p.guard); break; case 2: hop = strf("IF N<%d THEN EXEC \"%s\"\r", p.guard, p.target.c_str()); break; default: hop = strf("IF N<%d THEN ?\"GO\":EXEC \"%s\":?\"AFTER\"\r", p.guard, p.target.c_str()); }
		p.text = p.pre + hop + tail; p.rest = tail; prg[NAMES[i]] = p;
		bool px = g.chance(1, 2); std::string f, t = "PETC0300RPRG" + std::string(8, 0); uint32_t z = p.text.size(); t += std::string((char*)&z, 4) + p.text + std::string(-(int)z & 3, 0); if (px){ f = "PX01" + std::string(8, '\1') + strf("HD%d", i) + std::string(5, 0) + std::string(16, 2) + t; head[NAMES[i]] = strf("HD%d", i); } else { f = t; head[NAMES[i]] = NAMES[i]; }
		for (auto& d : {da, db}){ FILE* o = fopen((d + NAMES[i] + ".PTC").c_str(), "wb"); fwrite(f.data(), 1, f.size(), o); fclose(o); }
	}
	for (int k = 0; g.item(k, 2, 30, 12, 13); ++k){
		std::string l; switch (g.weighted({8, 6, 4, 2, 3, 2, 2, 2, 2})){
			case 0: l = stmt(false); break;
			case 1: ++specials; l = g.pick({"RUN", "RUN", "?1:RUN", "A=1:RUN:?2", "run", "N=0:RUN"}); break;
			case 2: ++specials; l = strf("%sEXEC \"%s\"%s", g.chance(1, 3) ? "N=0:" : "", g.chance(1, 10) ? "NONE" : NAMES[g.below(np)].c_str(), g.chance(1, 4) ? ":?3" : ""); break;
			case 3: ++specials; l = g.pick({"NEW", "NEW:RUN", "NEW:?4"}); break;
			case 4: ++specials; l = strf("%sLOAD\"PRG:%s\"%s", g.chance(1, 4) ? "?5:" : "", g.chance(1, 10) ? "NONE" : g.chance(1, 5) ? "SAVED" : NAMES[g.below(np)].c_str(), g.chance(1, 3) ? ":RUN" : g.chance(1, 4) ? ":?6" : ""); break;
			case 5: ++specials; l = g.chance(1, 2) ? "SAVE\"PRG:SAVED\"" : strf("APPEND\"PRG:%s\"", NAMES[g.below(np)].c_str()); break;
			case 6: { l = "?\""; int n = g.chance(1, 2) ? 29 : g.range(0, 28); for (int i = 0; i < n; ++i) l += (char)('A' + i % 26); l += "\""; if (l.size() > 32) l.resize(32); if (g.chance(1, 4)) l += "TOOLONG"; break; }
			case 7: l = g.pick({"", " ", "5", "12,\"A\"", "\1"}); break;
			default: l = stmt(false) + ":" + stmt(false); }
		if (l.size() > 32 && l.find("TOOLONG") == l.npos) l = "?A"; S.lines.push_back(l); S.select.push_back(g.chance(1, 10) ? g.range(1, 8) : 0);
	}
	int nb = g.range(1, 3); for (int i = 0; i < nb; ++i) S.burst.push_back(g.chance(1, 2) ? 40 : g.range(1, 6)); if (g.chance(1, 4)) S.close_sleep = g.below(60);
	std::string autorun = g.chance(1, 4) ? NAMES[g.below(np)] : g.chance(1, 20) ? "NONE" : "";
	int cap = g.pick({32, 64, 256}), strs = 128; bool early = g.chance(1, 4); long at = early ? g.chance(1, 2) ? g.below(3000) : g.below(60000) : 0;
	std::string d; for (auto& p : prg) d += "program " + p.first + ":\n" + show(p.second.text); if (!autorun.empty()) d += "started with " + autorun + "\n"; for (size_t i = 0; i < S.lines.size(); ++i) d += "> " + (S.lines[i] == "\1" ? std::string("(SELECT)") : S.lines[i]) + (S.select[i] ? strf("   ' SELECT in frame %d", S.select[i]) : "") + "\n"; if (early) d += strf("' closed at step %ld\n", at); d += strf("' %d variables\n", cap); c.text = d; note_text(d);
	// ---- the session
	sh_new(cap, strs, 4096); sh_search_path(da.c_str()); sh_set_names("", ""); live = true; start(); endless = false; sh_at_print = early ? close_now : give_up; sh_print_budget(early ? at : 20000000);
	int ra = sh_launch(autorun.empty() ? nullptr : autorun.c_str()); sh_at_print = nullptr; sh_print_budget(0x7fffffffffffl); std::vector<Shot> A; A.swap(shots); Shot enda = shot(); size_t used = next_line; long slept = sleeps; bool was_closed = closed;
	if (ra != ERR_SHUTDOWN) c.fail("the session ends with %s, expected %s", err_name(ra).c_str(), err_name(ERR_SHUTDOWN).c_str());
	if (early && slept > 200000) c.fail("the session goes on after it was closed"); (void)was_closed;
	// ---- the same by hand
	sh_new(cap, strs, 4096); sh_search_path(db.c_str()); sh_set_names("", ""); live = false; if (endless){ sh_on_sleep = nullptr; std::filesystem::remove_all(root); c.label("endless"); return; } start(); sh_at_print = give_up; sh_print_budget(20000000);
	struct Cur { std::string text; const Prg* p = nullptr; } cur; bool bad = false; std::string why = "discarded"; std::map<std::string, Cur> saved; int hops = 0; const char* zeros = "000000000000";
	std::string info, seen; for (auto& p : prg) seen += p.second.text; auto run_e = [&](const std::string& t){ return run_prog(t); };
	auto zz = [&]{ fx v = 0; sh_num("ZZ", &v); return v; }; auto nn = [&]{ return get_num("N") >> 12; };
	auto load = [&](const std::string& n) -> bool { if (prg.count(n)){ cur.p = &prg[n]; cur.text = cur.p->text; sh_set_names(head[n].c_str(), zeros); sh_set_result(1); return true; } if (saved.count(n)){ cur = saved[n]; sh_set_names(n.c_str(), zeros); sh_set_result(1); if (cur.text.empty()) bad = true; return true; } sh_set_result(0); return false; };
	std::function<int()> program = [&]() -> int { for (;;){ if (++hops > 300){ bad = true; why = "hops"; return 0; } if (!cur.p || !cur.p->kind) return run_e(cur.text); const Prg& p = *cur.p;
		// up to the hop; the rest of the text is there for its labels and data
		int e = run_e(p.pre + p.rest); if (e || closed) return e; if (zz() != 4096 || nn() >= p.guard) return 0; if (p.kind == 3){ e = run_e("?\"GO\"\r"); if (e) return e; } if (p.kind == 1) continue; if (!load(p.target)){ if (p.kind == 3) return run_e("?\"AFTER\"\r"); return 0; } } };
	auto split = [&](const std::string& l){ std::vector<std::string> v(1); bool q = false; for (char ch : l){ if (ch == '"') q = !q; if (ch == ':' && !q) v.push_back(""); else v.back() += ch; } return v; };
	// the lines of the script; what else got into a line (keys typed ahead) is not taken apart
	auto named = [&](const std::string& s, const std::string& h){ return s.size() > h.size() + 1 && s.compare(0, h.size(), h) == 0 && s.find('"', h.size()) == s.size() - 1; };
	auto special = [&](const std::string& s){ bool y = s == "RUN" || s == "run" || s == "NEW" || named(s, "EXEC \"") || named(s, "LOAD\"PRG:") || named(s, "SAVE\"PRG:") || named(s, "APPEND\"PRG:"); if (!y) for (auto w : {"RUN", "run", "NEW", "EXEC", "LOAD", "SAVE", "APPEND"}) if (s.find(w) != s.npos) bad = true, why = "word"; return y; };
	auto arg = [&](const std::string& s){ size_t a = s.find(':') != s.npos ? s.find(':') + 1 : s.find('"') + 1; return s.substr(a, s.rfind('"') - a); };
	auto line = [&](const std::string& l) -> int { auto v = split(l); bool any = false; for (auto& s : v) any |= special(s); if (any && std::find(S.lines.begin(), S.lines.end(), l) == S.lines.end()) bad = true, why = "merged"; if (bad) return 0; if (!any) return run_e(l + "\r");
		for (auto& s : v){ int e = 0; if (s == "RUN" || s == "run") return program(); else if (s == "NEW") cur = Cur(); else if (s[0] == 'E' && special(s)){ if (load(arg(s))) return program(); } else if (s[0] == 'L' && special(s)) load(arg(s)); else if (s[0] == 'S' && special(s)){ if (cur.text.empty()) bad = true, why = "empty save"; saved["SAVED"] = cur; sh_set_result(1); } else if (s[0] == 'A' && special(s)){ cur.text += prg[arg(s)].text; cur.p = nullptr; why = "append"; bad |= cur.text.find(" THEN RUN") != cur.text.npos || cur.text.find("EXEC") != cur.text.npos; sh_set_result(1); } else e = run_e(s + "\r"); if (e) return e; } return 0; };
	auto say = [&](int e){ std::string m = message(e); info = sh_error_info(); if (e == ERR_LABEL_NOT_FOUND){ if (!names_label(seen, info)) c.fail("the missing label is named %s", info.c_str()); m += info; } else if (!info.empty()) c.fail("\"%s\" is shown with %s", info.c_str(), err_name(e).c_str()); sh_say(m.c_str()); };
	// names stay in the variable table of a session, also over CLEAR; the prompt's variable is the first of them
	run_prog("", 2); get_str("CODE");
	sh_say("Small BASIC Computer            READY"); int e = 0;
	if (!autorun.empty()){ if (load(autorun)){ say(0); e = program(); } else { e = ERR_FILE_LOAD_FAILED; sh_set_result(1); } say(e); }
	std::string where; 
	while (!bad && !closed){
		e = run_e("LINPUT CODE$\r"); if (e){ say(e); continue; }
		WStr w = get_str("CODE"); std::string l; for (uint16_t ch : w) for (int i = 1; i < 256; ++i) if (golden_wide[i] == ch){ l += (char)i; break; }
		seen += l + "\r"; e = line(l); if (closed) e = ERR_SHUTDOWN; say(e); if (e == ERR_SHUTDOWN) break;
	}
	sh_on_sleep = nullptr; sh_at_print = nullptr; sh_print_budget(0x7fffffffffffl); bool part = early || bad || endless; if (bad) c.label(why); // up to there
	std::vector<Shot>& B = shots; auto rows = [](const Shot& s){ std::string t; for (int y = 0; y < 24; ++y){ std::string r; for (int x = 0; x < 32; ++x){ uint16_t w = s.cells[x + 32 * y]; int ch = ' '; for (int i = 32; i < 127; ++i) if (golden_wide[i] == w) ch = i; if (!w) ch = ' '; r += (char)ch; } while (!r.empty() && r.back() == ' ') r.pop_back(); t += r + "\n"; } return t; };
	size_t n = std::min(A.size(), B.size()); auto cmp = [&](const Shot& a, const Shot& b, const std::string& w){ for (int i = 0; i < 768; ++i) if (a.cells[i] != b.cells[i] || a.cols[i] != b.cols[i]) c.fail("%s the screen differs in row %d column %d; it shows\n%s\nexpected\n%s", w.c_str(), i / 32, i % 32, rows(a).c_str(), rows(b).c_str()); if (a.x != b.x || a.y != b.y) c.fail("%s the cursor is at %d,%d, expected %d,%d", w.c_str(), a.x, a.y, b.x, b.y); if (a.time != b.time) c.fail("%s frame %lld, expected %lld", w.c_str(), (long long)a.time, (long long)b.time); for (int i = 1; i < 4; ++i) if (a.h[i] != b.h[i]) c.fail("%s graphics, backgrounds or sprites differ (%d)", w.c_str(), i); };
	for (size_t i = 0; i < n; ++i) cmp(A[i], B[i], strf("at entry %zu", i + 1));
	if (!part){ if (A.size() != B.size()) c.fail("%zu lines were entered, expected %zu", A.size(), B.size()); cmp(enda, shot(), "at the end"); }
	std::filesystem::remove_all(root); c.label("lines", used); c.label("special lines", specials); c.label("closed early", early); c.label("errors", errors); c.nontrivial(used > 3 && specials);
}
}
const Prop the_prop = {"P25", run_case, 10000, 300000,
	"One case = a DIRECT mode session: up to three programs in the storage folder (that end, run themselves again, or EXEC another one, with errors, open loops and calls, INPUT, SELECT presses), an optional program to start with, and up to 30 typed lines (statements, errors, RUN, EXEC, LOAD, SAVE, APPEND, NEW, too long ones, stopped ones), then the window is closed, at the prompt, while a program waits, or at a random step of the interpreter. The screen, cursor, frame count and graphics at every prompt and at the end are compared with the same lines and programs run one by one. Non-trivial: more than three lines and a RUN, EXEC, LOAD, NEW, SAVE or APPEND.", nullptr};

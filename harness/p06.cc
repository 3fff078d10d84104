// P06: the same program under other compile options and layouts behaves the same.
#include "proggen.h"
extern "C" { void sh_digest(uint64_t out[6]); void sh_dump_vars(void (*cb)(const char*)); }
namespace {
const char* part[] = {"console", "graphics", "backgrounds", "sprites", "character/colour data", "MEM$/RESULT/VISIBLE"};
std::vector<std::string>* sink; void add_var(const char* s){ sink->push_back(s); }
struct State { int err; uint64_t d[6]; std::vector<std::string> vars; int bc; bool operator==(const State&) const; };
State exec(const std::string& src, int opts, int compile_only = 0){
	State s; memset(s.d, 0, sizeof s.d); sh_new(256, 128, 2048); int e = sh_compile(src.data(), (int)src.size(), opts, &s.bc); s.err = e;
	if (!e && !compile_only){ sh_new(256, 128, 2048); s.err = run_prog(src, opts); }
	sh_digest(s.d); sink = &s.vars; sh_dump_vars(add_var); std::sort(s.vars.begin(), s.vars.end()); return s;
}
enum { S_CASE = 1, S_BLANK = 2, S_COMMENT = 4, S_EMPTY = 8, S_QUEST = 16, S_SPLIT = 32, S_JOIN = 64, S_NOBLANK = 128, S_QUOTE = 256 };
const char* sname[] = {"keyword case", "extra blanks", "comments", "blank lines", "? for PRINT", "split lines", "joined lines", "no blank after number", "texts closed by the end of the line"};
bool has(const Line& l, const char* kw){ for (auto& t : l) if (t.k == 'k' && t.t == kw) return true; return false; }
std::string render(G& g, const std::vector<Line>& in, int st){
	std::vector<Line> ls;
	for (auto& l : in){
		if ((st & S_SPLIT) && !has(l, "IF") && !has(l, "DATA")){ Line c; for (auto& t : l){ if (t.k == ':' && g.chance(2, 3)){ ls.push_back(c); c.clear(); } else c.push_back(t); } ls.push_back(c); }
		else if ((st & S_JOIN) && !ls.empty() && !has(ls.back(), "IF") && !has(ls.back(), "DATA") && l[0].k != 'l' && g.chance(2, 3)){ Line c = ls.back(); c.push_back({":", ':'}); c.insert(c.end(), l.begin(), l.end()); if (plain(c).size() <= 99) ls.back() = c; else ls.push_back(l); }
		else ls.push_back(l);
	}
	std::string out;
	for (auto& l : ls){
		if (st & S_EMPTY) while (g.chance(1, 4)) out += g.pick({"\r", " \r", "'\r", "REM NEXT\r"});
		std::string o; bool data = has(l, "DATA");
		for (size_t i = 0; i < l.size(); ++i){
			Tok t = l[i]; if (t.k == 'k'){ if ((st & S_QUEST) && t.t == "PRINT" && g.chance(3, 4)) t = {"?", 'o'}; else if (st & S_CASE) for (char& c : t.t) if (g.chance(1, 2)) c = tolower(c); }
			bool need = i && (l[i - 1].k == 'd' || needs_blank(l[i - 1], t)); if (i && l[i - 1].t == "PRINT" && !o.empty() && o.back() == '?') need = false;
			if (need && (st & S_NOBLANK) && l[i - 1].k == '0' && l[i - 1].t[0] != '&' && t.k == 'k') need = false;
			if (need) o += ' ';
			if ((st & S_BLANK) && t.k != 'd') o += std::string(g.weighted({4, 2, 1}), ' ');
			o += t.t;
		}
		bool cut = (st & S_QUOTE) && !l.empty() && l.back().k == 's' && !data && g.chance(3, 4); if (cut) o.pop_back();
		if ((st & S_BLANK) && !data && !cut && g.chance(1, 4)) o += "  ";
		if ((st & S_COMMENT) && !data && !cut && g.chance(1, 3)) o += g.pick({"'x:NEXT", " ' \"", ":REM ELSE @L0", ": 'a", " REM", ":rem:END"});
		if (line_weight(o) > 99 || (has(l, "FOR") && o.size() > 99)) o = plain(l);
		out += o + "\r";
	}
	if (st & S_QUOTE) out.pop_back(); // the end of the last line
	return out;
}
// programs that use a large part of the variable table
void many(G& g, Case& c){
	int n = g.chance(1, 3) ? g.range(1800, 2040) : g.range(250, 1800); uint64_t r = g.bits() | 1; auto rnd = [&]{ r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33); };
	std::set<std::string> used; std::vector<std::string> nm; std::vector<int> val; static const char L[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
	while ((int)nm.size() < n){ std::string s(1, "VXQZ_"[rnd() % 5]); for (int k = 1 + rnd() % 4; k > 0; --k) s += L[rnd() % 37]; s += "Q"; if (rnd() % 6 == 0) s += "$"; if (used.insert(s).second) nm.push_back(s); }
	for (int i = 0; i < n; ++i) val.push_back((int)(rnd() % 100000));
	std::string src; for (int i = 0; i < n; ++i){ std::string s = nm[i].back() == '$' ? nm[i] + "=\"" + std::to_string(val[i]) + "\"" : nm[i] + "=" + std::to_string(val[i]); size_t at = src.rfind('\r'); size_t ll = src.size() - (at == std::string::npos ? 0 : at + 1); if (i) src += ll + s.size() < 90 && rnd() % 2 ? ":" : "\r"; src += s; }
	src += "\r"; for (int k = g.range(10, 60); k > 0; --k){ int i = rnd() % n, j = rnd() % n; if (nm[i].back() == '$' || nm[j].back() == '$') continue; src += nm[i] + "=" + nm[i] + "+" + nm[j] + "\r"; int64_t v = val[i] + val[j]; if (v > 400000) v -= 400000, src += nm[i] + "=" + nm[i] + "-400000\r"; val[i] = (int)v; }
	int opts = g.below(4); c.text = strf("options %d, %d variables\n", opts, n) + show(src); note_text(c.text);
	for (int k = 0; k < 2; ++k){ int o = k ? opts : g.pick({0, 2}); sh_new(2048, 4096, 64); int e = run_prog(src, o); if (e) c.fail("options %d: ends with %s", o, err_name(e).c_str());
		for (int i = 0; i < n; ++i){ if (nm[i].back() == '$'){ WStr s = get_str(nm[i].c_str()); if (s != gwiden(mstr(std::to_string(val[i])))) c.fail("options %d: variable %d %s is %s, expected %d", o, i, nm[i].c_str(), showw(s).c_str(), val[i]); } else { fx v = get_num(nm[i].c_str()); if (v != val[i] << 12) c.fail("options %d: variable %d %s is %s, expected %d", o, i, nm[i].c_str(), fxs(v).c_str(), val[i]); } } }
	c.label("many variables", n); c.nontrivial();
}
void run_case(G& g, Case& c){
	if (g.chance(1, 64)) return many(g, c);
	PG p(g, false); p.program(8);
	std::vector<Line> ls; for (auto& l : p.lines) if (line_weight(plain(l)) <= 99 && (plain(l).size() <= 99 || !has(l, "FOR"))) ls.push_back(l);
	// sometimes the last line is the one that runs last
	if (g.chance(1, 3)) for (size_t i = ls.size(); i-- > 0;) if (plain(ls[i]) == "END"){ ls[i] = {{"GOTO", 'k'}, {"@TAIL", 'l'}}; ls.push_back({{"@TAIL", 'l'}}); Line t = {{"PRINT", 'k'}, {"\"" + std::string(g.pick({"Q'tail", "", "a", "x:y "})) + "\"", 's'}}; ls.push_back(t); break; }
	// sometimes a statement is damaged, so that errors are met as well
	if (g.chance(1, 12)){ Line& l = ls[g.below((u32_)ls.size())]; if (l.size() > 1 && !has(l, "DATA") && !has(l, "FOR") && !has(l, "NEXT")) l.erase(l.begin() + g.below((u32_)l.size())); c.label("damaged statement"); }
	for (auto& l : ls) if (l.empty()) l.push_back({"", 'o'});
	std::string base; for (auto& l : ls) base += plain(l) + "\r";
	c.text = show(base); note_text(c.text);
	State a = exec(base, 0);
	int strict = exec(base, 4, 1).err;
	if (strict && a.err == strict) c.label("compile error"); 
	int opts = g.below(4), st = 0; 
	if (g.chance(3, 4)) for (int i = 0; i < 9; ++i) if (g.chance(1, 3)) st |= 1 << i;
	if (strict) st &= ~(S_SPLIT | S_JOIN); // which statements run before an error depends on the lines
	if (!st && !opts) opts = 1 + g.below(3);
	if (!strict && g.chance(1, 5)){ opts |= 4; c.label("strict option"); }
	std::string var = render(g, ls, st);
	c.text = show(base) + strf("---- variant, options %d\n", opts) + show(var); note_text(c.text);
	State b = exec(var, opts);
	for (auto& u : p.used) c.label("uses " + u);
	for (int i = 0; i < 9; ++i) if (st >> i & 1) c.label(std::string("layout: ") + sname[i]);
	c.label(strf("options %d", opts)); c.label(a.err ? "ends with an error" : "runs to the end"); c.nontrivial(ls.size() >= 6 && base != var + (opts ? "" : "x"));
	if (a.bc > 2 * (int)base.size()) c.fail("compiled size %d exceeds twice the source size %d", a.bc, (int)base.size());
	if (b.bc > 2 * (int)var.size()) c.fail("compiled size %d of the variant exceeds twice its source size %d", b.bc, (int)var.size());
	// a statement that is not accepted may be described by different compile errors
	auto cls = [&](int e){ return strict && e >= ERR_TEST_COMMAND && e <= ERR_UNKNOWN_TOKEN_TYPE ? (int)ERR_SYNTAX : e; };
	if (cls(a.err) != cls(b.err)) c.fail("ends with %s, variant ends with %s", err_name(a.err).c_str(), err_name(b.err).c_str());
	for (int i = 0; i < 6; ++i) if (a.d[i] != b.d[i]) c.fail("%s differ between the program and its variant", part[i]);
	if (a.vars != b.vars){ std::string x, y; for (auto& s : a.vars) if (!std::count(b.vars.begin(), b.vars.end(), s)) x += s + "; "; for (auto& s : b.vars) if (!std::count(a.vars.begin(), a.vars.end(), s)) y += s + "; "; c.fail("variables differ: %s / variant: %s", x.c_str(), y.c_str()); }
}
}
const Prop the_prop = {"P06", run_case, 40000, 1500000,
	"One case = one grammar-derived program (about 60 commands, 35 functions, loops, subroutines, DATA) run twice on fresh systems: as written with no options, and as a variant with random compile options (NO_LABELS, VARIABLE_IDS, STRICT_ERROR) and layout changes (keyword case, blanks, comments, blank lines, ?, splitting and joining lines, closing quotes and the last line's end left out). Error code, console, graphics, backgrounds, sprites, character/colour data and all variables must agree, and the compiled size must not exceed twice the source. One case in 64 gives 250 to 2040 variables values with and without numbered variables. Non-trivial: at least 6 lines and a variant that differs.", nullptr};

// P03: strings are values and their storage is reclaimed, over histories of programs on one system.
#include "strexpr.h"
extern "C" int sh_mem_text(uint16_t out[512]);
namespace {
const char* cells[] = {"A$", "B$", "C$", "S$[0]", "S$[1]", "MEM$", "T$[0,1]", "T$[2,3]"};
int lsize; // elements of the big array L$ (0: there is none)
struct St { Env v; MStr mem, t[2], l; fx z = 0; std::vector<MStr> data; size_t dp = 0; };
MStr& cell(St& s, int i){ return i < 3 ? s.v.sv[i] : i < 5 ? s.v.arr[i - 3] : i == 5 ? s.mem : s.t[i - 6]; }
int nodes(const E& e){ int n = 1; for (auto& x : e.a) n += nodes(*x); return n; }
struct Stmt { enum T { ASSIGN, COPY, SWAP, READ, NUM, PRINT, IFCMP, SINK, FORL, IDX, CLEARS, CHRS, ONVAL, LINE, BGR, KEYB, SHARE } t; int a = 0, b = 0; PE e, f; std::string text; MStr raw, line; std::vector<MStr> data; int num = 0; };
PE gs(G& g, int d){ return gens(g, d); }
Stmt gen_stmt(G& g, St&, std::string& dataline){
	Stmt s; std::string& o = s.text;
	for (int tries = 0; ; ++tries){
		o.clear(); s.e.reset(); s.f.reset(); s.raw.clear(); s.line.clear(); s.data.clear();
		static const Stmt::T ts[] = {Stmt::ASSIGN, Stmt::COPY, Stmt::SWAP, Stmt::READ, Stmt::NUM, Stmt::PRINT, Stmt::IFCMP, Stmt::SINK, Stmt::FORL, Stmt::IDX, Stmt::CHRS, Stmt::ONVAL, Stmt::CLEARS, Stmt::LINE, Stmt::BGR, Stmt::KEYB, Stmt::SHARE};
		s.t = tries > 6 ? Stmt::COPY : ts[g.weighted({8, 5, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2, 1, 4, 1, 1, lsize ? 4 : 0})];
		switch (s.t){
			case Stmt::ASSIGN: s.a = g.below(8); s.e = gs(g, g.range(1, 3)); o = std::string(cells[s.a]) + "="; pr(g, *s.e, 0, o); break;
			case Stmt::COPY: s.a = g.below(8); s.b = g.below(8); o = strf("%s=%s", cells[s.a], cells[s.b]); break;
			case Stmt::SWAP: s.a = g.below(8); s.b = g.below(8); o = strf("SWAP %s,%s", cells[s.a], cells[s.b]); break;
			case Stmt::READ: { s.a = g.below(8); o = strf("READ %s", cells[s.a]);
				if (g.chance(1, 3)){ s.b = 1 + g.below(8); o += strf(",%s", cells[s.b - 1]); } else s.b = 0; break; }
			case Stmt::NUM: s.a = g.below(3); s.e = genn(g, 2); o = std::string(nvars[s.a]) + "="; pr(g, *s.e, 0, o); break;
			case Stmt::PRINT: s.e = gs(g, 2); s.f = gs(g, 1); o = "PRINT "; pr(g, *s.e, 1, o); o += g.chance(1, 2) ? ";" : ","; pr(g, *s.f, 1, o); break;
			case Stmt::IFCMP: s.e = mk(N_CMP); s.e->op = g.below(6); s.e->a.push_back(gs(g, 2)); s.e->a.push_back(gs(g, 1)); o = "IF "; pr(g, *s.e, 1, o); o += " THEN N=1 ELSE N=2"; break;
			case Stmt::SINK: s.e = gs(g, 2); s.a = g.below(3); o = s.a == 0 ? "KEY 1," : s.a == 1 ? "PNLSTR 1,2," : "PRINT LEN("; pr(g, *s.e, 1, o); if (s.a == 2) o += ")"; break;
			case Stmt::FORL: s.e = gs(g, 1); s.a = g.range(0, 3); o = strf("FOR N=0 TO %d*(LEN(", s.a); pr(g, *s.e, 0, o); o += ")>=0):NEXT"; break;
			case Stmt::IDX: s.a = 3 + g.below(2); s.e = gs(g, 1); s.f = gs(g, 1); o = "S$[(LEN("; pr(g, *s.e, 0, o); o += strf(")>=0)*%d]=", s.a - 3); pr(g, *s.f, 0, o); break;
			case Stmt::CHRS: { s.a = g.below(8); int id = g.below(4); for (int i = 0; i < 8; ++i) s.raw += "0123456789ABCDEF"[g.below(16)]; MStr r; for (int i = 0; i < 8; ++i) r += s.raw; s.raw = r;
				o = strf("CHRSET \"SPU%d\",%d,\"%s\"*8:CHRREAD(\"SPU%d\",%d),%s", id, 7 * id, std::string(s.raw.begin(), s.raw.begin() + 8).c_str(), id, 7 * id, cells[s.a]); break; }
			case Stmt::ONVAL: s.e = gs(g, 1); o = "ON LEN("; pr(g, *s.e, 0, o); o += ")-300 GOTO @NOWHERE"; break;
			// lines are typed ahead: one LINPUT, or INPUT of two texts or a text and a number
			case Stmt::LINE: { s.a = g.below(8); s.b = g.below(8); int k = g.below(6), pr_ = g.weighted({2, 2, 1}); auto word = [&]{ MStr t; for (int i = 0, m = g.range(0, 5); i < m; ++i) t += (uint8_t)("ABC10-. "[g.below(8)]); return t; };
				o = k < 2 ? "LINPUT " : "INPUT "; if (pr_){ if (pr_ == 1) o += std::string(cells[g.below(6)]); else { s.e = gs(g, 1); pr(g, *s.e, 1, o); } o += ";"; }
				o += cells[s.a]; s.data.push_back(word()); s.line = s.data[0]; s.num = -1;
				if (k == 3){ o += strf(",%s", cells[s.b]); s.data.push_back(word()); s.line += (uint8_t)','; s.line += s.data[1]; }
				if (k == 4){ s.num = g.below(10); o += ",M"; s.line += ','; s.line += (uint8_t)('0' + s.num); }
				if (k > 2 && g.chance(1, 3)) s.line = mstr("A,B,C,D\r") + s.line;
				break; }
			case Stmt::BGR: { s.a = g.below(8); int k = g.below(3); if (k == 2){ int n = g.below(2000); s.raw = mstr(strf("0x%08X", n << 12)); o = strf("%s=%sPTR$(%d)", cells[s.a], g.chance(1, 3) ? "\"\"+" : "", n); break; } for (int i = 0; i < 4; ++i) s.raw += "0123456789ABCDEF"[g.below(16)]; std::string t(s.raw.begin(), s.raw.end());
				if (k == 0) o = strf("BGPUT 0,%d,3,\"%s\":BGREAD(0,%d,3),%s", 5 * s.a, t.c_str(), 5 * s.a, cells[s.a]);
				else o = strf("BGFILL 1,0,0,2,2,\"%s\":BGREAD(1,2,2),%s", t.c_str(), cells[s.a]);
				break; }
			case Stmt::KEYB: s.a = g.below(8); s.raw = MStr(1, (uint8_t)('A' + g.below(26))); o = strf("%s=%s", cells[s.a], g.chance(1, 2) ? "INKEY$()" : "\"\"+INKEY$()"); s.line = s.raw; break;
			case Stmt::SHARE: s.a = lsize > 1000 ? 0 : (int)g.below(8); s.b = g.chance(1, 4) ? (int)g.below(8) : -1; o = lsize > 1000 ? "A$=\"QR\":" : ""; o += strf("FOR I=0 TO %d:L$[I]=%s:NEXT", lsize - 1, cells[s.a]); if (s.b >= 0) o += strf(":%s=L$[%d]", cells[s.b], (int)g.below(lsize)); break;
			case Stmt::CLEARS: o = "CLEAR:DIM S$[2],T$[3,4]"; if (lsize) o += strf(",L$[%d]", lsize); break;
		}
		if (line_weight(o) <= 99 && (s.t != Stmt::FORL || o.size() <= 99)) return s; // the end of a FOR has at most 255 bytes of code
		s.raw.clear();
	}
}
// executes; throws Err when the statement fails with an error
void exec(Stmt& s, St& st){
	switch (s.t){
		case Stmt::ASSIGN: cell(st, s.a) = evs(*s.e, st.v); break;
		case Stmt::COPY: { MStr t = cell(st, s.b); cell(st, s.a) = t; break; }
		case Stmt::SWAP: std::swap(cell(st, s.a), cell(st, s.b)); break;
		case Stmt::READ: for (int k = 0; k < (s.b ? 2 : 1); ++k){ if (st.dp >= st.data.size()) throw Err{ERR_OUT_OF_DATA}; cell(st, k ? s.b - 1 : s.a) = st.data[st.dp++]; } break;
		case Stmt::NUM: st.v.nv[s.a] = evn(*s.e, st.v); break;
		case Stmt::PRINT: evs(*s.e, st.v); evs(*s.f, st.v); break;
		case Stmt::IFCMP: st.v.nv[0] = evn(*s.e, st.v) ? 4096 : 8192; break;
		case Stmt::SINK: evs(*s.e, st.v); break;
		case Stmt::FORL: { st.v.nv[0] = 0; evs(*s.e, st.v); // NEXT evaluates the limit before it steps
			do { evs(*s.e, st.v); st.v.nv[0] += 4096; } while (st.v.nv[0] <= s.a * 4096); break; }
		case Stmt::IDX: { evs(*s.e, st.v); MStr t = evs(*s.f, st.v); cell(st, s.a) = t; break; }
		case Stmt::CHRS: cell(st, s.a) = s.raw; break;
		case Stmt::LINE: if (s.e) evs(*s.e, st.v); cell(st, s.a) = s.data[0]; if (s.data.size() > 1) cell(st, s.b) = s.data[1]; if (s.num >= 0) st.v.nv[1] = s.num << 12; break;
		case Stmt::BGR: cell(st, s.a) = s.raw; break;
		case Stmt::KEYB: cell(st, s.a) = s.raw; break;
		case Stmt::ONVAL: evs(*s.e, st.v); break;
		case Stmt::SHARE: if (lsize > 1000) st.v.sv[0] = mstr("QR"); st.l = cell(st, s.a); if (s.b >= 0) cell(st, s.b) = st.l; break;
		case Stmt::CLEARS: { MStr m = st.mem; St n; n.mem = m; n.data = st.data; n.dp = st.dp; n.v.nv[0] = n.v.nv[1] = n.v.nv[2] = 0; std::swap(st, n); break; }
	}
}
int need(const Stmt& s){ return (s.e ? nodes(*s.e) : 0) + (s.f ? nodes(*s.f) : 0) + 6; }
bool compare(const St& st, std::string& why){
	for (int i = 0; i < 8; ++i){
		uint16_t b[512]; int n = i < 3 ? sh_str(cells[i], b) : i < 5 ? sh_astr("S$", i - 3, -1, b) : i == 5 ? sh_mem_text(b) : sh_astr("T$", i == 6 ? 0 : 2, i == 6 ? 1 : 3, b);
		WStr r(b, n < 0 ? 0 : n); const MStr& w = cell(const_cast<St&>(st), i);
		if (n < 0 || r != gwiden(w)){ why = strf("%s is %s, expected %s", cells[i], n < 0 ? "missing" : showw(r).c_str(), show8(w).c_str()); return false; }
	}
	for (int i = 0; lsize && i < 3; ++i){ static uint16_t b[512]; int at = i == 0 ? 0 : i == 1 ? lsize / 2 : lsize - 1, n = sh_astr("L$", at, -1, b); WStr r(b, n < 0 ? 0 : n);
		if (n < 0 || r != gwiden(st.l)){ why = strf("L$[%d] is %s, expected %s", at, showw(r).c_str(), show8(st.l).c_str()); return false; } }
	for (int i = 0; i < 3; ++i) if (get_num(nvars[i]) != st.v.nv[i]){ why = strf("%s is %s, expected %s", nvars[i], fxs(get_num(nvars[i])).c_str(), fxs(st.v.nv[i]).c_str()); return false; }
	return true;
}
void run_case(G& g, Case& c){
	int pool = g.weighted({3, 2, 2, 1}); static const int pools[] = {16, 32, 64, 512}; pool = g.chance(1, 6) ? g.range(5, 12) : pools[pool];
	lsize = g.chance(1, 30) ? g.chance(1, 12) ? g.range(65500, 65560) : g.range(240, 270) : 0; if (lsize) c.label(lsize > 1000 ? "one string in over 65000 places" : "one string in over 240 places");
	if (lsize < 1000) pool += lsize; // elements set from a constant have a string each
	sh_new(32, pool, 256 + lsize * 4);
	St st; st.v.nv[0] = st.v.nv[1] = st.v.nv[2] = 0;
	std::string desc = strf("strings: %d\n", pool);
	{ std::string src = "DIM S$[2],T$[3,4]" + (lsize ? strf(",L$[%d]", lsize) : std::string()) + "\r"; if (run_prog(src)) c.fail("DIM failed"); }
	for (int i = 0; i < 3; ++i){ MStr s = gen_mstr(g); st.v.sv[i] = s; sh_set_str(cells[i], s.data(), s.size()); desc += strf("%s=%s ", cells[i], show8(s).c_str()); }
	for (int i = 0; i < 3; ++i){ st.v.nv[i] = gen_arg(g); sh_set_num(nvars[i], st.v.nv[i]); desc += strf("%s=%s ", nvars[i], fxs(st.v.nv[i]).c_str()); }
	int total = 0, done = 0;
	for (int p = 0; g.item(p, 1, 5, 2, 3); ++p){
		int n = 0, reps = g.chance(1, 8) ? g.range(20, 60) : g.weighted({6, 2, 1}) + 1; 
		st.data.clear(); std::string dl = "DATA ";
		for (int i = 0, k = g.range(0, 4); i < k; ++i){ MStr t; for (int j = 0, m = g.range(0, 6); j < m; ++j) t += (uint8_t)("ABC10,. "[g.below(8)]); st.data.push_back(t); dl += strf("%s\"%s\"", i ? "," : "", std::string(t.begin(), t.end()).c_str()); }
		if (st.data.empty()){ dl = "DATA X"; st.data.push_back(mstr("X")); }
		std::vector<Stmt> ss; std::string src;
		for (int i = 0; g.item(i, 1, 14, 7, 8); ++i, ++n){ ss.push_back(gen_stmt(g, st, dl)); src += ss.back().text + "\r" + strf("Z=%d\r", i + 1); }
		src += dl + "\r@NOWHERE\r";
		desc += strf("\n--- program %d (run %d times)\n", p, reps) + show(src);
		note_text(desc); c.text = desc;
		for (int r = 0; r < reps; ++r){
			sh_set_num("Z", 0); st.dp = 0;
			St at = st; at.data = st.data; int want = 0, k = 0; bool unspec = false;
			for (; k < n; ++k){
				St before = at;
				try { exec(ss[k], at); }
				catch (Err& x){ want = x.code;
					// READ a,b may have stored its first item; a FOR has set its variable
					if (ss[k].t == Stmt::FORL || ss[k].t == Stmt::READ){ } else at = before;
					break; }
			}
			if (want == VAL_UNSPEC){ c.label("VAL of an unrepresentable number (unspecified)"); unspec = true; }
			sh_inkey_clear(); for (auto& q : ss){ for (uint8_t ch : q.line) sh_inkey(ch == '\r' ? '\r' : golden_wide[ch]); if (q.t == Stmt::LINE) sh_inkey('\r'); }
			int err = sh_run(src.data(), src.size(), 0);
			if (unspec) { return; }
			done += k; ++total;
			fx z = get_num("Z");
			if (err == ERR_OUT_OF_MEMORY && want != ERR_OUT_OF_MEMORY){
				// only when the pool is really too small for the live strings and the statement's temporaries
				int i = z >> 12; if (i > n - 1 || i < 0 || i > k) c.fail("out of memory after statement %d of %d", i, n);
				if (8 + (lsize > 1000 ? 1 : lsize) + need(ss[i]) < pool) c.fail("statement %d reports out of memory with at most %d of %d strings in use", i + 1, 8 + (lsize > 1000 ? 1 : lsize) + need(ss[i]), pool);
				c.label("string table really full" + std::string(ss[i].t == Stmt::LINE ? " at a line" : ""));
				St re = st; for (int j = 0; j < i; ++j) exec(ss[j], re);
				St half = re; std::string why;
				bool ok = compare(re, why);
				int bad = sh_dyn_bad(); if (bad >= 0) c.fail("string slot %d has a use count that differs from its references", bad);
				if (!ok && (ss[i].t == Stmt::FORL || ss[i].t == Stmt::SHARE || ss[i].t == Stmt::READ || ss[i].t == Stmt::CHRS || ss[i].t == Stmt::LINE)){ c.label("partly executed"); return; }
				if (!ok) c.fail("after out of memory in statement %d: %s", i + 1, why.c_str());
				at = re; at.data = st.data; st = at; break;
			}
			if (err != want) c.fail("program %d: error %s, expected %s (after statement %d)", p, err_name(err).c_str(), err_name(want).c_str(), z >> 12);
			if (want && z != k * 4096 && ss[k].t != Stmt::CLEARS) { bool cl = false; for (int j = 0; j <= k; ++j) cl |= ss[j].t == Stmt::CLEARS; if (!cl || z != k * 4096) if (!cl) c.fail("program %d failed at statement %d, expected %d", p, (z >> 12) + 1, k + 1); }
			std::string why; if (!compare(at, why)) c.fail("program %d run %d: %s", p, r, why.c_str());
			int bad = sh_dyn_bad(); if (bad >= 0) c.fail("program %d run %d: string slot %d has a use count that differs from its references", p, r, bad);
			if (want) c.label("program ended by an error"); else c.label("program completed");
			st = at;
			if (want && r) break;
		}
		for (auto& s : ss){ static const char* tn[] = {"assign expression", "copy", "SWAP", "READ", "number from strings", "PRINT", "IF compare", "KEY/PNLSTR/LEN argument", "FOR limit", "array index", "CLEAR", "CHRREAD", "ON", "LINPUT/INPUT", "BGREAD", "INKEY$", "one string in many elements"}; c.label(tn[s.t]); }
	}
	c.nontrivial(done >= 3);
}
}
const Prop the_prop = {"P03", run_case, 120000, 4000000,
	"One case = 1..5 programs run one after the other (each up to 60 times) on one system with 16..512 string slots; statements assign, copy, swap, read, compare, print and pass strings between three variables, four elements of arrays with one and two dimensions, and MEM$, through random expressions, some failing. After every run: all string cells and number variables against a value model, the error and the statement it occurred at, and every string slot's use count against the references found in the variable table. Out of memory is accepted only when live strings plus the statement's temporaries can exceed the table. Non-trivial: at least three statements executed. Distinct by program texts and initial values.", nullptr};

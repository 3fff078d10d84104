// P05: control flow against a flat reference interpreter.
#include "model.h"
#include <climits>
namespace {
const char* const VN0[] = {"A","B","C","I","J","K"}; char vn_buf[6][4]; const char* VN[6];
void gen_names(G& g, bool may){ bool own = may && g.chance(1, 3); for (int i = 0; i < 6; ++i){ if (own) snprintf(vn_buf[i], 4, "%c%c", 'A' + (i * 4 + (int)g.below(4)), "0123456789XYZ"[g.below(13)]); else strcpy(vn_buf[i], VN0[i]); VN[i] = vn_buf[i]; } }
enum { NV = 6 };
struct X { int k = 0, a = 0, b = 0; fx c = 0; };   // 0 const, 1 var, 2 var+const, 3 var-var, 4 -var
struct Cnd { int k = 0, op = 0; X l, r; bool orr = false; };
enum K { SET, TRACE, IF, ELSE, JUMP, ON, FOR, NEXT, RET, END_, STOP_, LABEL, IFEND, BAD };
struct Op { K k; int v = -1; X x, lim, st; bool step = false, gosub = false, first = false; Cnd c; std::vector<int> lab; int tr = 0; int els = -1, fin = -1; };
struct Call { bool loop; int v; int at; };

std::vector<Op> ops; std::string prog; std::map<int,int> where; int nlabels; // label n -> op index
std::set<std::string> used; int kmark; bool soup;
// numbers whose bytes look like code
fx decoy(G& g){ static const uint8_t b[] = {'C', 10, 'C', 11, 'c', 7, 'c', 4, 'B', 'S', 'N', 'O', 'D', 'V', 'l', 'd', 0, 6, 1, 2}; fx v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | b[g.below(20)]; return v; }
fx gconst(G& g){ switch (g.weighted({16, 6, 4, 1, 2})){ case 4: return decoy(g); case 0: return g.range(0, 4) << 12; case 1: return g.range(-4, 9) * 4096; case 2: return g.range(-8, 12) * 1024; default: return g.range(-1, 1) * (524287 << 12); } }
X gx(G& g, bool simple = false){ X x; x.k = simple ? 0 : g.weighted({6, 3, 3, 1, 1}); x.a = g.below(NV); x.b = g.below(NV); x.c = gconst(g); if (x.k == 2 && (x.c > (9 << 12) || x.c < 0)) x.c = 4096; return x; }
std::string cs(fx c){ std::string s = num_lit(c); return s; }
std::string xs(const X& x){ switch (x.k){ case 0: return x.c == INT_MIN ? "(-524287-1)" : cs(x.c); case 1: return VN[x.a]; case 2: return std::string(VN[x.a]) + "+" + cs(x.c); case 3: return std::string(VN[x.a]) + "-" + VN[x.b]; default: return std::string("-") + VN[x.a]; } }
struct RtErr { int e; };
fx fit(int64_t v){ if (v < INT_MIN || v > INT_MAX) throw RtErr{ERR_OVERFLOW}; return (fx)v; }
fx ev(const X& x, const fx* v){ switch (x.k){ case 0: return x.c; case 1: return v[x.a]; case 2: return fit((int64_t)v[x.a] + x.c); case 3: return fit((int64_t)v[x.a] - v[x.b]); default: if (v[x.a] == INT_MIN) throw RtErr{-1}; return -v[x.a]; } }
const char* CO[] = {"<", "==", ">", "<=", ">=", "!="};
std::string gc(G& g, Cnd& c){ c.k = g.weighted({8, 2, 2}); c.op = g.below(6); c.l = gx(g); if (c.l.k == 0) c.l.k = 1; c.r = gx(g);
	if (c.k == 0) return xs(c.l) + CO[c.op] + xs(c.r);
	if (c.k == 1) return xs(c.l);
	c.orr = g.chance(1, 2); return xs(c.l) + CO[c.op] + xs(c.r) + (c.orr ? " OR " : " AND ") + VN[c.l.a]; }
bool cmpf(int op, fx a, fx b){ switch (op){ case 0: return a < b; case 1: return a == b; case 2: return a > b; case 3: return a <= b; case 4: return a >= b; default: return a != b; } }

struct B { std::string t; std::vector<Op> o; };          // a line under construction
Op& add(B& b, K k, bool first){ Op o; o.k = k; o.first = first; b.o.push_back(o); return b.o.back(); }
std::string lname(int n){ static const char* nm[] = {"@L0","@L1","@L2","@MAIN","@SUB_1","@A","@LOOP_UNTIL_ZERO_","@FIFTEEN_CHARS_9"}; return n < 0 ? "@NOWHERE" : nm[n]; }
int glabel(G& g){ return g.chance(1, 60) ? -1 : (int)g.below(nlabels); }
std::string ltext(G& g, int n){ if (g.chance(1, 12)){ used.insert("string label"); return "\"" + lname(n) + "\""; } return lname(n); }
bool bare(const B& b){ return !b.o.empty() && b.o.back().k == JUMP && b.o.back().tr < 0; } // ends with THEN/ELSE @label
void stmt(G& g, B& b, bool first, int depth);
void stmts(G& g, B& b, bool first, int depth, int max){
	int n = 1; while (n < max && g.chance(2, 5)) ++n;
	for (int i = 0; i < n; ++i){ if (i && bare(b)) return; if (i) b.t += g.chance(1, 10) ? " : " : ":"; stmt(g, b, i ? true : first, depth); }
}
void s_trace(G& g, B& b, bool first){ Op& o = add(b, TRACE, first); o.tr = ++kmark; b.t += strf("R=(R*31+%d)%%9973", o.tr); }
void s_set(G& g, B& b, bool first){ Op& o = add(b, SET, first); o.v = g.below(NV); if (g.chance(1, 2)){ o.x.k = 2; o.x.a = o.v; o.x.c = 4096; } else o.x = gx(g); b.t += std::string(VN[o.v]) + "=" + xs(o.x); }
void s_jump(G& g, B& b, bool first, bool gosub){ Op& o = add(b, JUMP, first); o.gosub = gosub; o.lab = {glabel(g)}; b.t += std::string(gosub ? "GOSUB " : "GOTO ") + ltext(g, o.lab[0]); used.insert(gosub ? "GOSUB" : "GOTO"); }
void s_for(G& g, B& b, bool first){ Op& o = add(b, FOR, first); o.v = g.below(NV); o.x = gx(g, g.chance(2, 3)); o.lim = gx(g, g.chance(2, 3)); o.step = g.chance(1, 3);
	if (g.chance(1, 20)){ // a loop that ends near the limit of numbers, or runs into it
		bool up = g.chance(1, 2); fx st = g.pick({4096, 4096, 2048, 8192, 12288}), d = st * (fx)g.below(5) + (fx)g.below(3) * 1024; used.insert("loop at the number limit");
		o.x = X(); o.x.c = up ? (524287 << 12) - d : INT_MIN + (d ? d : 4096); o.lim = X(); o.lim.c = up ? (524287 << 12) : INT_MIN + (fx)g.below(2) * 4096; o.step = !up || g.chance(1, 2); o.st = X(); o.st.c = o.step ? up ? st : -st : 4096;
		b.t += std::string("FOR ") + VN[o.v] + "=" + xs(o.x) + " TO " + xs(o.lim); if (o.step){ b.t += " STEP " + xs(o.st); used.insert("STEP"); } used.insert("FOR"); return; }
	if (o.step){ o.st = gx(g, g.chance(4, 5)); used.insert("STEP"); } else { o.st.k = 0; o.st.c = 4096; }
	b.t += std::string("FOR ") + VN[o.v] + "=" + xs(o.x) + " TO " + xs(o.lim); if (o.step) b.t += " STEP " + xs(o.st); used.insert("FOR"); }
void s_next(G& g, B& b, bool first, int v){ Op& o = add(b, NEXT, first); o.v = v; b.t += "NEXT"; if (v >= 0) b.t += std::string(" ") + VN[v]; used.insert("NEXT"); }
void s_if(G& g, B& b, bool first, int depth){
	used.insert("IF"); int at = (int)b.o.size(); { Op& o = add(b, IF, first); std::string c = gc(g, o.c); b.t += "IF " + c; }
	switch (g.weighted({5, 2, 1})){
		case 0: b.t += " THEN "; stmts(g, b, false, depth + 1, 3); break;
		case 1: { b.t += " THEN "; Op& o = add(b, JUMP, false); o.lab = {glabel(g)}; o.tr = -1; b.t += lname(o.lab[0]); used.insert("THEN label"); break; }
		default: { b.t += " GOTO "; Op& o = add(b, JUMP, false); o.lab = {glabel(g)}; b.t += lname(o.lab[0]); used.insert("IF GOTO"); }
	}
	bool inner = false; for (size_t i = at + 1; i < b.o.size(); ++i) inner |= b.o[i].k == IF;
	if (!inner && g.chance(1, 3)){
		b.t += " ELSE "; add(b, ELSE, false); used.insert("ELSE");
		if (g.chance(1, 4)){ Op& o = add(b, JUMP, false); o.lab = {glabel(g)}; o.tr = -1; b.t += lname(o.lab[0]); used.insert("ELSE label"); }
		else if (depth < 2 && g.chance(1, 4)){ used.insert("ELSE IF"); s_if(g, b, false, depth + 1); }
		else stmts(g, b, false, 9, 3);
	}
}
void stmt(G& g, B& b, bool first, int depth){
	switch (soup ? g.weighted({10, 8, depth < 2 ? 6 : 0, 3, 3, 2, 4, 4, 2, 1, 1}) : g.weighted({30, 24, depth < 2 ? 18 : 0, 3, 8, 6, depth ? 0 : 1, depth ? 1 : 0, depth ? 2 : 0, depth ? 1 : 0, depth ? 1 : 0})){
		case 0: s_trace(g, b, first); break;
		case 1: s_set(g, b, first); break;
		case 2: s_if(g, b, first, depth); break;
		case 3: s_jump(g, b, first, false); break;
		case 4: s_jump(g, b, first, true); break;
		case 5: { Op& o = add(b, ON, first); o.x = gx(g); if (o.x.k == 0) o.x.k = 1; o.gosub = g.chance(1, 2); b.t += "ON " + xs(o.x) + (o.gosub ? " GOSUB " : " GOTO ");
			int n = g.range(1, 4); for (int i = 0; i < n; ++i){ int l = i && i + 1 < n && g.chance(1, 8) ? -2 : glabel(g); o.lab.push_back(l); if (i) b.t += ","; if (l != -2) b.t += lname(l); } used.insert(o.gosub ? "ON GOSUB" : "ON GOTO"); break; }
		case 6: s_for(g, b, first); break;
		case 7: s_next(g, b, first, g.chance(1, 2) ? -1 : (int)g.below(NV)); break;
		case 8: add(b, RET, first); b.t += "RETURN"; used.insert("RETURN"); break;
		case 9: add(b, END_, first); b.t += "END"; used.insert("END"); break;
		default: add(b, STOP_, first); b.t += "STOP"; used.insert("STOP");
	}
}
std::vector<std::string> badlines; bool allow_bad; // lines that do not compile
void spoil(G& g, B& b){
	static const char* tail[] = {":J=9999999", ":K=524288", ":IF J THEN K=777777", ":J=(1", ":J=1+", ":J=&HZ", ":GOSUB @A_LABEL_NAME_OF_20", ":IF J THEN J=99999999 ELSE I=1", ":FOR J=1 TO 7777777"};
	std::string t = b.t;
	switch (t[0] == '@' ? 0 : g.weighted({6, 2, 1})){ // (whether the label in front is known depends on the kind of error)
		case 0: t += tail[t[0] == '@' ? g.pick({0, 1, 2, 7, 8}) : (int)g.below(9)]; break;
		case 1: t = "J=1048576:" + t; break;
		default: for (int n = g.range(27, 60); n; --n) t += ":A=1"; break; // more tokens than a line can have
	}
	b.t = t; b.o.clear(); add(b, BAD, true).tr = (int)badlines.size(); badlines.push_back(t); used.insert("line with a compile error");
}
bool flush(G& g, B& b){ // line finished: link and append
	if (allow_bad && b.t.size() < 99 && g.chance(1, 40)){ spoil(g, b); if (!b.o.empty() && b.o[0].k == BAD){ b.o[0].fin = (int)ops.size(); ops.push_back(b.o[0]); prog += b.t + "\r"; return true; } }
	if (b.t.size() > 99) return false;
	if (g.chance(1, 25)){ size_t q = b.t.find(':'); int n = g.range(60, 255); if (q != std::string::npos && b.t.find('"') == std::string::npos && b.t.size() < 90 && b.t[0] != '@' && b.t.compare(q, 6, ":A=1:A")){ b.t.insert(q + 1, "Q$=\"" + std::string(n, g.pick({'N', ':', '@'})) + "\":"); used.insert("long text in a line"); } }
	if (g.chance(1, 20)) { std::string c = g.chance(1, 2) ? " 'NEXT:@L0" : ":REM GOTO @L1"; if (b.t.size() + c.size() <= 99) b.t += c; }
	add(b, IFEND, false);
	int base = (int)ops.size();
	for (size_t i = 0; i < b.o.size(); ++i){
		Op& o = b.o[i]; o.fin = base + (int)b.o.size() - 1;
		if (o.k == IF){ o.els = -1; for (size_t j = i + 1; j < b.o.size(); ++j) if (b.o[j].k == ELSE){ o.els = base + (int)j + 1; break; } }
		ops.push_back(o);
	}
	prog += b.t + "\r"; return true;
}
void place(G& g, int n){ if (where.count(n)) return; where[n] = (int)ops.size(); prog += lname(n); if (g.chance(1, 3)){ B b; b.t = lname(n) + ":"; stmts(g, b, true, 0, 2); if (b.t.size() <= 99){ prog.resize(prog.size() - lname(n).size()); flush(g, b); return; } } prog += "\r"; }
void gen_lines(G& g, int depth, int max){ // structured block
	for (int i = 0; g.item(i, 1, max, 3, 4); ++i){
		if (ops.size() > 150) return;
		switch (g.weighted({8, depth < 3 ? 4 : 0, 2, depth < 3 ? 2 : 0})){
			case 0: { B b; stmts(g, b, true, 0, 4); flush(g, b); break; }
			case 1: { B b; s_for(g, b, true); int v = b.o[0].v; bool tail = g.chance(1, 4); if (tail){ b.t += ":"; stmts(g, b, true, 0, 2); } if (!flush(g, b)) break;
				gen_lines(g, depth + 1, 3);
				B e; if (g.chance(1, 3)){ stmts(g, e, true, 0, 2); if (bare(e)){ e = B(); } else e.t += ":"; } s_next(g, e, true, g.chance(1, 2) ? -1 : v); if (g.chance(1, 4)){ e.t += ":"; stmts(g, e, true, 0, 2); }
				if (!flush(g, e)){ B f; s_next(g, f, true, -1); flush(g, f); } break; }
			case 2: place(g, g.below(nlabels)); break;
			default: { // counted loop made of IF/GOTO
				int n = g.below(nlabels); if (where.count(n)) break; place(g, n); gen_lines(g, depth + 1, 2);
				B b; Op& o = add(b, SET, true); o.v = g.below(NV); o.x.k = 2; o.x.a = o.v; o.x.c = 4096; int v = o.v; b.t = std::string(VN[v]) + "=" + VN[v] + "+1:"; 
				Op& c = add(b, IF, true); c.c.k = 0; c.c.op = 0; c.c.l.k = 1; c.c.l.a = v; c.c.r.c = g.range(1, 6) << 12; b.t += std::string("IF ") + VN[v] + "<" + cs(c.c.r.c) + " GOTO " + lname(n); Op& j = add(b, JUMP, false); j.lab = {n}; flush(g, b); }
		}
	}
}
struct Res { int err = 0, alt = 0; bool endless = false; fx v[NV]; int tr = 0; int steps = 0; size_t deep = 0; int skips = 0, jumps = 0; };
Res interp(const fx* init){
	Res r; memcpy(r.v, init, sizeof r.v); std::vector<Call> st; int pc = 0; int N = (int)ops.size();
	bool sub = false; auto go = [&](int lab){ if (sub && st.size() == 255) r.alt = ERR_OUT_OF_MEMORY; /* both faults: either report */ if (lab == -1) throw RtErr{ERR_LABEL_NOT_FOUND}; auto it = where.find(lab); if (it == where.end()) throw RtErr{ERR_LABEL_NOT_FOUND}; return it->second; };
	auto push = [&](Call c){ if (st.size() == 255) throw RtErr{ERR_OUT_OF_MEMORY}; st.push_back(c); r.deep = std::max(r.deep, st.size()); };
	try { while (pc < N){
		if (++r.steps > 4000){ r.endless = true; break; }
		const Op& o = ops[pc++];
		switch (o.k){
			case SET: r.v[o.v] = ev(o.x, r.v); break;
			case TRACE: r.tr = (r.tr * 31 + o.tr) % 9973; break;
			case IF: { bool t; if (o.c.k == 1) t = ev(o.c.l, r.v) != 0; else { t = cmpf(o.c.op, ev(o.c.l, r.v), ev(o.c.r, r.v)); if (o.c.k == 2){ int w = r.v[o.c.l.a] >> 12; t = o.c.orr ? ((t | w) << 12) != 0 : ((t & w) != 0); } }
				if (!t) pc = o.els >= 0 ? o.els : o.fin; break; }
			case ELSE: pc = o.fin; break;
			case JUMP: { sub = o.gosub; int to = go(o.lab[0]); if (o.gosub) push({false, 0, pc}); pc = to; ++r.jumps; break; }
			case ON: { int i = ev(o.x, r.v) >> 12; if (i < 0 || i >= (int)o.lab.size()) break; if (o.lab[i] == -2) throw RtErr{ERR_SYNTAX}; sub = o.gosub; int to = go(o.lab[i]); if (o.gosub) push({false, 0, pc}); pc = to; ++r.jumps; break; }
			case FOR: {
				// the variable is looked up, the loop is entered, then start, limit and step are evaluated
				push({true, o.v, pc - 1}); r.v[o.v] = ev(o.x, r.v); fx lim = ev(o.lim, r.v), s = ev(o.st, r.v);
				if ((s < 0 && lim > r.v[o.v]) || (s >= 0 && lim < r.v[o.v])){
					++r.skips; int nest = 1;
					while (nest){
						if (pc >= N) throw RtErr{ERR_FOR_WITHOUT_NEXT};
						const Op& q = ops[pc++]; if (!q.first) continue;
						if (q.k == FOR) ++nest;
						else if (q.k == NEXT){ if (q.v < 0) --nest; else if (q.v == o.v) break; else if (nest > 1) --nest; }
					}
					st.pop_back();
				} break; }
			case NEXT: { int i = (int)st.size() - 1; while (i >= 0 && !(st[i].loop && (o.v < 0 || st[i].v == o.v))) --i;
				if (i < 0) throw RtErr{ERR_NEXT_WITHOUT_FOR};
				const Op& f = ops[st[i].at]; fx lim = ev(f.lim, r.v), s = ev(f.st, r.v); fx n = fit((int64_t)r.v[f.v] + s); r.v[f.v] = n;
				if ((s < 0 && lim > n) || (s >= 0 && lim < n)) st.erase(st.begin() + i); else { pc = st[i].at + 1; ++r.jumps; } break; }
			case RET: { int i = (int)st.size() - 1; while (i >= 0 && st[i].loop) --i; if (i < 0) throw RtErr{ERR_RETURN_WITHOUT_GOSUB}; pc = st[i].at; st.resize(i); ++r.jumps; break; }
			case END_: pc = N; break;
			case STOP_: throw RtErr{ERR_BREAK};
			case BAD: throw RtErr{o.fin};
			default: break;
		}
	} } catch (RtErr& e){ r.err = e.e; }
	return r;
}
void run_case(G& g, Case& c){
	badlines.clear(); allow_bad = g.chance(1, 4); ops.clear(); prog.clear(); where.clear(); used.clear(); kmark = 0; nlabels = g.range(1, 8);
	fx init[NV]; for (fx& v : init) v = g.chance(1, 2) ? 0 : gconst(g);
	int mode = g.weighted({7, 3, 1}); gen_names(g, mode < 2);
	soup = mode == 1;
	if (mode == 2){ // deep recursion
		int n = g.pick({3, 100, 253, 254, 255, 256, 300}); bool loop = g.chance(1, 3);
		B b; Op& s = add(b, SET, true); s.v = 0; s.x.c = 0; b.t = "A=0"; flush(g, b);
		{ B q; Op& j = add(q, JUMP, true); j.gosub = true; j.lab = {0}; q.t = "GOSUB @L0"; flush(g, q); } { B q; s_trace(g, q, true); q.t += ":END"; add(q, END_, true); flush(g, q); }
		where[0] = ops.size(); prog += "@L0\r";
		{ B q; if (loop){ Op& f = add(q, FOR, true); f.v = 3; f.x.c = 4096; f.lim.c = 4096; f.st.c = 4096; q.t += "FOR I=1 TO 1:"; } Op& a = add(q, SET, true); a.v = 0; a.x.k = 2; a.x.c = 4096; q.t += "A=A+1:"; Op& i = add(q, IF, true); i.c.k = 0; i.c.op = 0; i.c.l.k = 1; i.c.l.a = 0; i.c.r.c = n << 12; q.t += strf("IF A<%d THEN GOSUB @L0", n); Op& j = add(q, JUMP, false); j.gosub = true; j.lab = {0}; flush(g, q); }
		{ B q; s_trace(g, q, true); q.t += ":"; stmts(g, q, true, 0, 2); flush(g, q); } { B q; if (loop && g.chance(1, 2)){ s_next(g, q, true, -1); q.t += ":"; } add(q, RET, true); q.t += "RETURN"; flush(g, q); }
		used.insert("deep recursion"); nlabels = 1;
	} else if (mode == 0){
		gen_lines(g, 0, 8);
		if (g.chance(2, 3)){ B b; add(b, END_, true); b.t = "END"; flush(g, b); }
		for (int n = 0; n < nlabels; ++n) if (!where.count(n) && !g.chance(1, 12)){ // subroutines
			place(g, n); gen_lines(g, 2, 3); if (!g.chance(1, 8)){ B b; add(b, RET, true); b.t = "RETURN"; flush(g, b); } }
	} else {
		int n = g.range(2, 25);
		for (int i = 0; g.item(i, 1, n, 12, 13); ++i){ if (g.chance(1, 4)) place(g, g.below(nlabels)); else { B b; stmts(g, b, true, 0, 4); flush(g, b); } }
		for (int k = 0; k < nlabels; ++k) if (!where.count(k) && !g.chance(1, 8)){ place(g, k); B b; stmts(g, b, true, 0, 3); flush(g, b); }
	}
	int opts = g.weighted({3, 1, 1, 1}); static const int tabs[] = {64, 256, 2048}; int tab = tabs[g.weighted({4, 1, 1})];
	std::string desc = show(prog) + strf("opts=%d table=%d ", opts, tab); for (int i = 0; i < NV; ++i) desc += strf("%s=%s ", VN[i], fxs(init[i]).c_str());
	int big = g.chance(1, 150) ? g.pick({695, 1400, 2100, 4500}) : 0, big_at = big ? g.below(std::count(prog.begin(), prog.end(), '\r') + 1) : 0; if (big) desc += strf("%d skipped lines put before line %d ", big, big_at);
	c.text = desc; note_text(desc);
	// a line that does not compile: the error it gives alone, when it is reached, and nothing else of it
	for (Op& o : ops) if (o.k == BAD){ sh_new(64, 64, 64); std::string l = badlines[o.tr] + "\r"; int bc; o.fin = sh_compile(l.data(), (int)l.size(), 4, &bc); if (!o.fin) c.fail("the line `%s` compiles", badlines[o.tr].c_str()); }
	Res r = interp(init);
	if (r.endless){ c.label("discarded: does not end within the model's limit"); return; }
	if (r.err == -1){ c.label("discarded: negation of the least number"); return; }
	sh_new(tab, 64, 64); for (int i = 0; i < NV; ++i) sh_set_num(VN[i], init[i]); sh_set_num("R", 0);
	int err = run_prog(big ? blow_up(prog, big_at, big) : prog, opts); if (big) c.label("code of more than 65536 bytes");
	for (auto& u : used) c.label(u);
	c.label(r.err ? "result: error " + err_name(r.err) : "result: runs to the end"); if (r.skips) c.label("zero-trip FOR"); if (r.deep >= 250) c.label("250+ nested calls/loops");
	c.label(strf("mode %d", mode)); c.nontrivial(r.steps >= 8 && r.jumps >= 1);
	if (err != r.err && !(r.err && err == r.alt)) c.fail("ends with %s, expected %s", err_name(err).c_str(), err_name(r.err).c_str());
	fx tr = get_num("R"); if (tr != (r.tr << 12)) c.fail("statement trace is %s, expected %d", fxs(tr).c_str(), r.tr);
	for (int i = 0; i < NV; ++i){ fx v = get_num(VN[i]); if (v != r.v[i]) c.fail("%s is %s, expected %s", VN[i], fxs(v).c_str(), fxs(r.v[i]).c_str()); }
}
}
const Prop the_prop = {"P05", run_case, 300000, 10000000,
	"One case = one generated program of up to about 40 lines (structured blocks with loops and subroutines, unstructured label soup, or deep recursion), 1-4 statements per line, compiled with random options and compared with a reference interpreter over flat operations: error code, rolling hash of the executed trace statements, all variables. Programs that do not end within 4000 model steps are discarded. Non-trivial: at least 8 executed operations and one taken jump.", nullptr};

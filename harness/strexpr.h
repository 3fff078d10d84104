// Typed random expression trees over string operators and functions, and their
// reference evaluation on character sequences.
#pragma once
#include "model.h"
#include <memory>
#include <climits>

namespace {
enum K { S_VAR, S_ARR, S_LIT, S_CHR, S_LEFT, S_RIGHT, S_MID, S_SUBST, S_HEX, S_HEX2, S_STR, S_ADD, S_MUL,
         N_LIT, N_VAR, N_LEN, N_ASC, N_INSTR, N_INSTR3, N_VAL, N_CMP, N_ADD, N_NEG };
const char* kname[] = {"var","array element","literal","CHR$","LEFT$","RIGHT$","MID$","SUBST$","HEX$","HEX$ digits","STR$","+","*","num","numvar","LEN","ASC","INSTR","INSTR start","VAL","compare","n+n","-n"};
const char* cmpn[] = {"==","!=","<",">","<=",">="};
struct E { K k; int op = 0; std::string lit; MStr s; fx v = 0; std::vector<std::unique_ptr<E>> a; };
typedef std::unique_ptr<E> PE;
const char* svars[] = {"A$","B$","C$"};
const char* nvars[] = {"N","M","K"};
struct Err { int code; };
struct Env { MStr sv[3], arr[2]; fx nv[3]; };

PE mk(K k){ PE e(new E); e->k = k; return e; }
PE gens(G& g, int d); PE genn(G& g, int d);
fx gen_arg(G& g){
	switch (g.weighted({8, 3, 2, 2, 1})){
		case 0: return g.range(0, 10) * 4096;
		case 1: return g.range(-3, 260) * 4096;
		case 2: { static const int b[] = {-1, 0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65792, 131072, 524287, -524288, -65536, -32768, 99, 1000}; return (fx)((uint32_t)b[g.below(21)] << 12); }
		case 3: return g.range(-2 * 4096, 12 * 4096);
		default: return gen_fx(g);
	}
}
PE genn(G& g, int d){
	int w = d <= 0 ? g.weighted({3, 3}) : g.weighted({4, 5, 3, 3, 3, 2, 3, 3, 2, 1});
	PE e;
	switch (w){
		case 0: { e = mk(N_LIT); fx v = gen_arg(g); if (v < 0 || v == INT_MIN) v = 4096; e->lit = num_lit(v); fx t; model_val(mstr(e->lit), t); e->v = t; return e; }
		case 1: e = mk(N_VAR); e->op = g.below(3); return e;
		case 2: e = mk(N_LEN); e->a.push_back(gens(g, d - 1)); return e;
		case 3: e = mk(N_ASC); e->a.push_back(gens(g, d - 1)); return e;
		case 4: case 5: e = mk(w == 4 ? N_INSTR : N_INSTR3); e->a.push_back(gens(g, d - 1)); e->a.push_back(gens(g, d - 1)); if (w == 5) e->a.push_back(genn(g, d - 2)); return e;
		case 6: e = mk(N_VAL); e->a.push_back(gens(g, d - 1)); return e;
		case 7: e = mk(N_CMP); e->op = g.below(6); e->a.push_back(gens(g, d - 1)); e->a.push_back(gens(g, d - 1)); return e;
		case 8: e = mk(N_ADD); e->a.push_back(genn(g, d - 1)); e->a.push_back(genn(g, d - 1)); return e;
		default: e = mk(N_NEG); e->a.push_back(genn(g, d - 1)); return e;
	}
}
PE gens(G& g, int d){
	int w = d <= 0 ? g.weighted({5, 2, 3}) : g.weighted({5, 2, 3, 2, 4, 4, 4, 4, 2, 2, 2, 5, 3});
	PE e = mk((K)w);
	switch (w){
		case S_VAR: e->op = g.below(3); break;
		case S_ARR: e->op = g.below(2); break;
		case S_LIT: { int n = g.weighted({30, 90, 90, 60, 30, 2}); if (n == 5) n = g.pick({127, 128, 129, 254, 255, (int)g.range(100, 255)}); for (int i = 0; i < n; ++i){ uint8_t c = g.chance(1, 3) ? (uint8_t)g.below(256) : "AB10."[g.below(5)]; if (!c || c == '"' || c == '\r') c = 'x'; e->s += c; } break; }
		case S_CHR: case S_HEX: case S_STR: e->a.push_back(genn(g, d - 1)); break;
		case S_HEX2: e->a.push_back(genn(g, d - 1)); e->a.push_back(genn(g, d - 2)); break;
		case S_LEFT: case S_RIGHT: e->a.push_back(gens(g, d - 1)); e->a.push_back(genn(g, d - 1)); break;
		case S_MID: e->a.push_back(gens(g, d - 1)); e->a.push_back(genn(g, d - 1)); e->a.push_back(genn(g, d - 2)); break;
		case S_SUBST: e->a.push_back(gens(g, d - 1)); e->a.push_back(genn(g, d - 2)); e->a.push_back(genn(g, d - 2)); e->a.push_back(gens(g, d - 2)); break;
		case S_ADD: e->a.push_back(gens(g, d - 1)); e->a.push_back(gens(g, d - 1)); break;
		case S_MUL: e->a.push_back(gens(g, d - 1)); e->a.push_back(genn(g, d - 1)); break;
	}
	return e;
}
MStr evs(const E& e, const Env& v); 
fx evn(const E& e, const Env& v){
	switch (e.k){
		case N_LIT: return e.v;
		case N_VAR: return v.nv[e.op];
		case N_LEN: return (fx)evs(*e.a[0], v).size() << 12;
		case N_ASC: { MStr s = evs(*e.a[0], v); if (s.empty()) throw Err{ERR_SYNTAX}; return s[0] << 12; }
		case N_INSTR: case N_INSTR3: {
			MStr s = evs(*e.a[0], v), t = evs(*e.a[1], v); int st = e.k == N_INSTR3 ? evn(*e.a[2], v) >> 12 : 0;
			if (st < 0) throw Err{ERR_OUT_OF_RANGE};
			if (t.empty()) return 0;
			size_t p = (size_t)st > s.size() ? MStr::npos : s.find(t, st);
			return p == MStr::npos ? -4096 : (fx)p << 12; }
		case N_VAL: { fx o; int r = model_val(evs(*e.a[0], v), o); if (r) throw Err{r}; return o; }
		case N_CMP: { int c = cmp_wide(evs(*e.a[0], v), evs(*e.a[1], v)); bool b[] = {c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0};
			return b[e.op] ? 4096 : 0; }
		case N_ADD: { int64_t x = evn(*e.a[0], v); x += evn(*e.a[1], v); if (x < INT_MIN || x > INT_MAX) throw Err{ERR_OVERFLOW}; return (fx)x; }
		default: { fx x = evn(*e.a[0], v); return (fx)-(uint32_t)x; }
	}
}
MStr evs(const E& e, const Env& v){
	switch (e.k){
		case S_VAR: return v.sv[e.op];
		case S_ARR: return v.arr[e.op];
		case S_LIT: return e.s;
		case S_CHR: { int c = evn(*e.a[0], v) >> 12; if (c < 0 || c > 255) throw Err{ERR_OUT_OF_RANGE}; return MStr(1, (uint8_t)c); }
		case S_LEFT: case S_RIGHT: { MStr s = evs(*e.a[0], v); int n = evn(*e.a[1], v) >> 12; if (n < 0) throw Err{ERR_OUT_OF_RANGE}; if ((size_t)n > s.size()) n = s.size(); return e.k == S_LEFT ? s.substr(0, n) : s.substr(s.size() - n); }
		case S_MID: { MStr s = evs(*e.a[0], v); int b = evn(*e.a[1], v) >> 12, n = evn(*e.a[2], v) >> 12; if (b < 0 || n < 0) throw Err{ERR_OUT_OF_RANGE}; return (size_t)b >= s.size() ? MStr() : s.substr(b, n); }
		case S_SUBST: { MStr s = evs(*e.a[0], v); int b = evn(*e.a[1], v) >> 12, n = evn(*e.a[2], v) >> 12; MStr r = evs(*e.a[3], v);
			if (b < 0 || b > (int)s.size()) throw Err{ERR_OUT_OF_RANGE}; if (n < 0 || n > (int)s.size()) n = s.size();
			MStr o = s.substr(0, b) + r + ((size_t)b + n < s.size() ? s.substr(b + n) : MStr()); if (o.size() > 256) throw Err{ERR_STRING_TOO_LONG}; return o; }
		case S_HEX: { int n = evn(*e.a[0], v) >> 12; return mstr(strf("%X", n & 0xfffff)); }
		case S_HEX2: { int n = evn(*e.a[0], v) >> 12, d = evn(*e.a[1], v) >> 12; if (d < 1 || d > 5) throw Err{ERR_OUT_OF_RANGE};
			if (n >= (1 << (4 * d)) || n < -(1 << (4 * d - 1))) throw Err{ERR_ILLEGAL_FUNCTION_CALL}; return mstr(strf("%0*X", d, n & 0xfffff & ((1 << 4 * d) - 1))); }
		case S_STR: return model_str(evn(*e.a[0], v));
		case S_ADD: { MStr s = evs(*e.a[0], v), t = evs(*e.a[1], v); if (s.size() + t.size() > 256) throw Err{ERR_STRING_TOO_LONG}; return s + t; }
		default: { MStr s = evs(*e.a[0], v); int64_t n = evn(*e.a[1], v) >> 12; if (n < 0) n = 0; if (n * (int64_t)s.size() > 256) throw Err{ERR_STRING_TOO_LONG};
			MStr o; if (!s.empty()) for (int i = 0; i < n; ++i) o += s; return o; }
	}
}
void pr(G& g, const E& e, int need, std::string& o){
	int prio = e.k == S_ADD || e.k == N_ADD ? 4 : e.k == S_MUL ? 5 : e.k == N_CMP ? 3 : e.k == N_NEG ? 6 : 9;
	bool par = prio < need || g.chance(1, 25);
	if (par) o += "(";
	auto args = [&]{ o += "("; for (size_t i = 0; i < e.a.size(); ++i){ if (i) o += ","; pr(g, *e.a[i], 0, o); } o += ")"; };
	switch (e.k){
		case S_VAR: o += svars[e.op]; break;
		case S_ARR: o += strf("S$[%d]", e.op); break;
		case S_LIT: o += "\"" + std::string(e.s.begin(), e.s.end()) + "\""; break;
		case N_LIT: o += e.lit; break;
		case N_VAR: o += nvars[e.op]; break;
		case S_ADD: case N_ADD: pr(g, *e.a[0], 4, o); o += "+"; pr(g, *e.a[1], 5, o); break;
		case S_MUL: pr(g, *e.a[0], 5, o); o += "*"; pr(g, *e.a[1], 6, o); break;
		case N_CMP: pr(g, *e.a[0], 3, o); o += cmpn[e.op]; pr(g, *e.a[1], 4, o); break;
		case N_NEG: o += "-"; pr(g, *e.a[0], 6, o); break;
		case S_CHR: o += rcase(g, "CHR$"); args(); break;
		case S_LEFT: o += rcase(g, "LEFT$"); args(); break;
		case S_RIGHT: o += rcase(g, "RIGHT$"); args(); break;
		case S_MID: o += rcase(g, "MID$"); args(); break;
		case S_SUBST: o += rcase(g, "SUBST$"); args(); break;
		case S_HEX: case S_HEX2: o += rcase(g, "HEX$"); args(); break;
		case S_STR: o += rcase(g, "STR$"); args(); break;
		case N_LEN: o += rcase(g, "LEN"); args(); break;
		case N_ASC: o += rcase(g, "ASC"); args(); break;
		case N_INSTR: case N_INSTR3: o += rcase(g, "INSTR"); args(); break;
		case N_VAL: o += rcase(g, "VAL"); args(); break;
	}
	if (par) o += ")";
}
void classes(const E& e, std::set<std::string>& s, int& n){ s.insert(kname[e.k]); ++n; for (auto& x : e.a) classes(*x, s, n); }
}

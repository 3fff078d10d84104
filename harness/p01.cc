// P01: numeric expressions = 20.12 fixed-point BASIC arithmetic.
#include "model.h"
#include <cmath>
#include <climits>
#include <memory>

namespace {
enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, EQ, NE, LT, GT, LE, GE };
const char* opname[] = {"+","-","*","/","%","AND","OR","XOR","==","!=","<",">","<=",">="};
const int opprio[] = {4,4,5,5,5,2,2,2,3,3,3,3,3,3};
enum Un { NEG, BNOT, LNOT };
const char* fname[] = {"ABS","SGN","FLOOR","RAD","DEG","SQR","SIN","COS","TAN","ATAN","EXP","LOG","POW","ATAN","PI"};
enum { F_ABS, F_SGN, F_FLOOR, F_RAD, F_DEG, F_SQR, F_SIN, F_COS, F_TAN, F_ATAN, F_EXP, F_LOG, F_POW, F_ATAN2, F_PI, F_COUNT };
struct E { int k; int op; fx v; std::string lit; std::unique_ptr<E> a, b; };
typedef std::unique_ptr<E> PE;
struct Err { int code; };
struct Env { fx var[6]; };
const char* vname[] = {"A","B","X1","VALUE","Z_9","ARR"};

fx lit_value(const std::string& s){ // decimal literal text: integer part + truncated fraction
	size_t d = s.find('.'); int64_t ip = 0; for (char c : s.substr(0, d)) ip = ip * 10 + (c - '0');
	int64_t n = 0, m = 1; if (d != std::string::npos) for (char c : s.substr(d + 1)){ n = n * 10 + (c - '0'); m *= 10; }
	return (fx)(ip * 4096 + n * 4096 / m);
}
PE leaf(G& g){
	PE e(new E); e->k = 0; e->op = 0; e->v = 0;
	switch (g.weighted({5, 6, 2, 1, 1})){
		case 0: { // decimal literal
			std::string s = std::to_string(g.weighted({6, 3, 1}) == 0 ? g.range(0, 20) : g.chance(1, 2) ? g.range(0, 1000) : g.range(0, 524287));
			if (g.chance(1, 3)){ if (s == "0" && g.chance(1, 2)) s = ""; s += "."; int n = g.range(s.size() == 1 ? 1 : 0, 6); for (int i = 0; i < n; ++i) s += (char)('0' + g.below(10)); }
			if (g.chance(1, 20)) s = "0" + s;
			e->lit = s; e->v = lit_value(s); break; }
		case 1: e->k = 1; e->op = g.below(6); break;
		case 2: { uint32_t v = g.chance(1, 2) ? g.below(256) : g.below(1 << 20); e->v = (fx)(v << 12); e->lit = g.chance(1, 4) ? strf("&H%05X", v) : strf("&H%X", v); break; }
		case 4: { int k = g.below(3); e->lit = k == 0 ? "TRUE" : k == 1 ? "FALSE" : "CANCEL"; e->v = k == 0 ? 4096 : k == 1 ? 0 : -4096; break; }
		default: { uint32_t v = g.chance(1, 2) ? g.below(16) : g.below(1 << 20); e->v = (fx)(v << 12); std::string b; do { b = char('0' + (v & 1)) + b; v >>= 1; } while (v); e->lit = "&B" + b; }
	}
	return e;
}
PE gen(G& g, int depth){
	if (depth <= 0) return leaf(g);
	PE e(new E); e->v = 0;
	switch (g.weighted({2, 9, 3, 3})){
		case 0: return leaf(g);
		case 1: e->k = 2; e->op = g.below(14); e->a = gen(g, depth - 1); e->b = gen(g, depth - 1 - (g.chance(1, 3) ? 1 : 0)); return e;
		case 2: e->k = 3; e->op = g.below(3); e->a = gen(g, depth - 1); return e;
		default: e->k = 4; e->op = g.below(F_COUNT); if (e->op != F_PI) e->a = gen(g, depth - 1); if (e->op == F_POW || e->op == F_ATAN2) e->b = gen(g, depth - 1); return e;
	}
}
fx fit(int64_t z){ if (z < INT_MIN || z > INT_MAX) throw Err{ERR_OVERFLOW}; return (fx)z; }
fx fit_d(double z){ if (std::isnan(z)) throw Err{ERR_ILLEGAL_FUNCTION_CALL}; if (!(z >= -2147483648.0 && z < 2147483648.0)) throw Err{ERR_OVERFLOW}; return (fx)z; }
fx I2F(int32_t i){ return (fx)((uint32_t)i << 12); }
int tags; // classes met while evaluating
fx eval(const E& e, const Env& env){
	switch (e.k){
		case 0: return e.v;
		case 1: return env.var[e.op];
		case 3: { fx x = eval(*e.a, env);
			if (e.op == NEG){ if (x == INT_MIN) throw Err{-1}; return -x; }
			if (e.op == BNOT) return I2F(~(x >> 12));
			return x == 0 ? 4096 : 0; }
		case 2: { fx x = eval(*e.a, env), y = eval(*e.b, env); int64_t X = x, Y = y;
			switch (e.op){
				case ADD: return fit(X + Y); case SUB: return fit(X - Y);
				case MUL: { int64_t z = X * Y; return fit(z >> 12); }
				case DIV: if (!y) throw Err{ERR_DIVIDE_BY_ZERO}; return fit(X * 4096 / Y);
				case MOD: if (!y) throw Err{ERR_DIVIDE_BY_ZERO}; return (fx)(X % Y);
				case AND: return I2F((x >> 12) & (y >> 12)); case OR: return I2F((x >> 12) | (y >> 12)); case XOR: return I2F((x >> 12) ^ (y >> 12));
				case EQ: return x == y ? 4096 : 0; case NE: return x != y ? 4096 : 0; case LT: return x < y ? 4096 : 0;
				case GT: return x > y ? 4096 : 0; case LE: return x <= y ? 4096 : 0; default: return x >= y ? 4096 : 0;
			} }
		default: {
			fx x = e.a ? eval(*e.a, env) : 0, y = e.b ? eval(*e.b, env) : 0; double d = x / 4096.0;
			switch (e.op){
				case F_ABS: return x == INT_MIN ? x : x < 0 ? -x : x; // documented: the minimum stays
				case F_SGN: return x < 0 ? -4096 : x > 0 ? 4096 : 0;
				case F_FLOOR: return I2F(x >> 12);
				case F_RAD: return (fx)((int64_t)x * 12867 / (180 * 4096));
				case F_DEG: return fit((int64_t)x * (180 * 4096) / 12867);
				case F_SQR: if (x < 0) throw Err{ERR_ILLEGAL_FUNCTION_CALL}; return (fx)floor(4096 * sqrt(d));
				case F_SIN: return (fx)floor(4096 * sin(d)); case F_COS: return (fx)floor(4096 * cos(d));
				case F_TAN: return fit_d(floor(4096 * tan(d)));
				case F_ATAN: return (fx)floor(4096 * atan(d));
				case F_EXP: return fit_d(floor(4096 * exp(d)));
				case F_LOG: if (x <= 0) throw Err{ERR_ILLEGAL_FUNCTION_CALL}; return (fx)round(4096 * log(d));
				case F_POW: { float f = powf(x / 4096.0f, y / 4096.0f); if (std::isinf(f) || std::isnan(f)) throw Err{ERR_ILLEGAL_FUNCTION_CALL}; if (f >= 524288.0f || f <= -524288.0f) throw Err{ERR_OVERFLOW}; return (fx)(4096 * f); }
				case F_ATAN2: return (fx)floor(4096 * atan2(d, y / 4096.0));
				default: return 12867;
			} }
	}
}
void emit(G& g, std::string& o, const std::string& t){
	if (!o.empty() && !t.empty() && !runs_alone(o.back()) && !runs_alone(t[0])) o += ' ';
	else o += spaces(g);
	o += t;
}
void print(G& g, const E& e, int need, std::string& o){
	int prio = e.k == 2 ? opprio[e.op] : e.k == 3 ? 6 : 9;
	bool par = prio < need || g.chance(1, 12);
	if (par) emit(g, o, "(");
	if (e.k == 0) emit(g, o, e.lit);
	else if (e.k == 1){ if (e.op == 5) emit(g, o, g.chance(1, 2) ? "ARR[2]" : "ARR(2)"); else emit(g, o, vname[e.op]); }
	else if (e.k == 2){ print(g, *e.a, prio, o); emit(g, o, rcase(g, opname[e.op])); print(g, *e.b, prio + 1, o); }
	else if (e.k == 3){ emit(g, o, e.op == NEG ? "-" : e.op == BNOT ? rcase(g, "NOT") : "!"); print(g, *e.a, 6, o); }
	else { emit(g, o, rcase(g, fname[e.op]));
		if (e.op == F_PI){ if (g.chance(1, 2)) emit(g, o, "()"); }
		else { bool br = g.chance(1, 10); o += br ? "[" : "("; print(g, *e.a, 0, o); if (e.b){ o += ","; print(g, *e.b, 0, o); } o += br ? "]" : ")"; } }
	if (par) emit(g, o, ")");
}
void classes(const E& e, std::set<std::string>& s){
	if (e.k == 2) s.insert(std::string("op ") + opname[e.op]); else if (e.k == 3) s.insert(e.op == NEG ? "op neg" : e.op == BNOT ? "op NOT" : "op !"); else if (e.k == 4) s.insert(std::string("fn ") + fname[e.op]);
	if (e.a) classes(*e.a, s); if (e.b) classes(*e.b, s);
}
int nodes(const E& e){ return 1 + (e.a ? nodes(*e.a) : 0) + (e.b ? nodes(*e.b) : 0); }

void expression_case(G& g, Case& c, bool reuse){
	if (!reuse) sh_new(64, 64, 256);
	int depth = g.weighted({1, 3, 5, 4, 2, 1});
	PE e = gen(g, depth);
	Env env; for (fx& v : env.var) v = gen_fx(g);
	fx before = (fx)g.range(-5, 5) * 4096;
	std::string t; print(g, *e, 0, t);
	// the language allows 100 characters per line
	std::string src = "ARR[2]=ARR\r"; src += "R=";
	std::string tail = "";
	if (t.size() + 2 + tail.size() > 99){ c.label("discarded: longer than a line"); return; }
	src += t + "\rDONE=1\r";
	for (int i = 0; i < 6; ++i) sh_set_num(vname[i], env.var[i]);
	sh_set_num("R", before); sh_set_num("DONE", 0);
	int want_err = 0; fx want = 0;
	try { want = eval(*e, env); } catch (Err& x){ want_err = x.code; }
	std::string desc = show(src); for (int i = 0; i < 6; ++i) desc += strf("%s=%s ", vname[i], fxs(env.var[i]).c_str());
	c.describe(desc + "\n"); note_text(desc);
	int err = run_prog(src); fx r = get_num("R"), done = get_num("DONE");
	if (want_err == -1){ c.label("unary minus of the least number (unspecified)"); return; }
	std::set<std::string> cl; classes(*e, cl); for (auto& s : cl) c.label(s);
	c.label(want_err ? "result: error " + err_name(want_err) : "result: value"); c.nontrivial(nodes(*e) >= 3);
	if (err != want_err) c.fail("expression gives error %s, expected %s (value %s)", err_name(err).c_str(), err_name(want_err).c_str(), fxs(want).c_str());
	if (want_err){
		if (r != before) c.fail("target changed to %s although evaluation failed", fxs(r).c_str());
		if (done) c.fail("execution continued after the error");
	} else {
		if (r != want) c.fail("expression evaluates to %s, expected %s", fxs(r).c_str(), fxs(want).c_str());
		if (done != 4096) c.fail("execution did not continue");
	}
}
void rnd_case(G& g, Case& c){
	sh_new(64, 64, 256);
	fx n = gen_fx(g); sh_set_num("N", n);
	std::string src = "A=RND(N):B=RND(N):C=RND(N)\r"; c.describe(src + fxs(n)); c.label("fn RND"); c.nontrivial(n > 4096);
	int e = run_prog(src); if (e) c.fail("RND fails with %s", err_name(e).c_str());
	int m = n >> 12; if (m == 0) m = 1;
	for (auto v : {"A", "B", "C"}){ fx r = get_num(v); int i = r >> 12; if (r & 4095) c.fail("RND gives a fraction %s", fxs(r).c_str()); if (m > 0 ? (i < 0 || i >= m) : (i > 0 || i <= m)) c.fail("RND(%s) gives %s", fxs(n).c_str(), fxs(r).c_str()); }
}
void run_case(G& g, Case& c){
	if (g.chance(1, 60)) return rnd_case(g, c);
	expression_case(g, c, false);
}
}
const Prop the_prop = {"P01", run_case, 400000, 12000000,
	"One case = one random expression tree (depth up to 4, 14 binary and 3 unary operators, 15 functions) over literals and six variables with boundary-weighted values, printed with random spacing, letter case and redundant parentheses, run as a program and compared with a 64-bit reference evaluator (value, error code, untouched target). Non-trivial: at least three nodes, accepted by the line limit. Distinct by program text and variable values.", nullptr};

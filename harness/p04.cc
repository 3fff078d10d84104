// P04: variables and arrays as a map from (name, type, index) to values.
#include "model.h"
#include <climits>
namespace {
struct Arr { int d1 = 0, d2 = -1; std::vector<fx> n; std::vector<MStr> s; };
struct Slot { bool arr, str; fx n = 0; MStr s; bool made = false; Arr a; };
struct Model { int vmax, arr; long used = 0, elems = 0; std::map<std::string, Slot> v; };
// key: name, then "$" for strings, then "[" for arrays
struct Ref { std::string name; bool str = false, arr = false; int nidx = 0; fx ix = 0, iy = 0; std::string key() const { return name + (str ? "$" : "") + (arr ? "[" : ""); } };
struct Fail { int code, alt; };        // statement fails with one of the codes
struct Val { bool str = false; fx n = 0; MStr s; };
struct Stmt { enum T { ASSIGN, COPY, DIM, CLEARV, SWAP, FREE, FILL, LOOPCLEAR } t; Ref a, b; Val v; std::vector<Ref> dims; std::vector<std::pair<int,int>> sz; std::string text; };

std::vector<std::string> names; std::map<std::string, std::pair<int,int>> shapes; // intended shape per array key
bool is_keyword(const std::string& s){
	static const char* k = " ABS AND ASC ATAN BTRIG CHR CLS COS DIM END EXP FOR GOTO IF KEY LEN LOG MID MOD NEW NEXT NOT ON OR PI POW RAD READ REM RND RUN SGN SIN SQR STEP STOP STR TAN TO VAL VSYNC WAIT XOR TRUE FALSE ERR ERL DEG HEX ADDR PTR PEEK POKE THEN ELSE SAVE LOAD DATA EXEC BEEP GOSUB COLOR PRINT INPUT SWAP SORT CLEAR CONT LIST TALK MEM ACLS GCLS APPEND DELETE FILES ";
	return strstr(k, (" " + s + " ").c_str()) != nullptr;
}
std::string gen_name(G& g){
	for (int t = 0; t < 20; ++t){
		std::string n;
		if (!names.empty() && g.chance(1, 2)){ // neighbour of an existing name
			n = g.pick(names);
			switch (g.below(4)){
				case 0: if (n.size() < 16) n += "ABZ019_"[g.below(7)]; break;
				case 1: n[g.below(n.size())] = "QXYZ"[g.below(4)]; break;
				case 2: if (n.size() > 1) n.pop_back(); break;
				default: { size_t i = g.below(n.size()); if (isalpha((unsigned char)n[i])) n[i] ^= 32; else if (n.size() > 1) std::swap(n[n.size() - 1], n[n.size() - 2]); }
			}
		} else {
			int len = g.weighted({6, 4, 3, 2, 1}) + 1; if (g.chance(1, 6)) len = g.range(5, 16);
			n = std::string(1, 'A' + (char)g.below(26));
			for (int i = 1; i < len; ++i) n += "ABCXYZ0123456789_abz"[g.below(20)];
		}
		if (!isalpha((unsigned char)n[0]) && n[0] != '_') n[0] = 'Q';
		if (n == "Z" || n == "R") continue;
		std::string u = n; for (char& c : u) c = toupper(c);
		bool kw = is_keyword(u); 
		if (!kw) return n;
	}
	return "QQ";
}
Ref gen_ref(G& g, int str = -1, int arr = -1){
	Ref r; r.name = g.pick(names); r.str = str < 0 ? g.chance(1, 3) : str; r.arr = arr < 0 ? g.chance(1, 2) : arr;
	if (r.arr){
		auto& sh = shapes[r.key()];
		if (!sh.first) sh = {g.chance(1, 3) ? 10 : g.range(1, 12), g.chance(1, 2) ? -1 : g.chance(1, 3) ? 10 : g.range(1, 6)};
		r.nidx = sh.second < 0 ? 1 : 2; if (arr < 0 && g.chance(1, 25)) r.nidx = 3 - r.nidx;
		auto ix = [&](int n) -> fx { switch (g.weighted({12, 3, 2, 1, 1})){ case 0: return g.range(0, n - 1) << 12; case 1: return (n - 1) << 12; case 2: return (g.range(0, n - 1) << 12) + g.below(4096); case 3: return n << 12; default: { static const fx b[] = {-4096, -1, -2048, 10 << 12, 11 << 12, INT_MAX, INT_MIN + 1, 65536 << 12, -8192}; return b[g.below(9)]; } } };
		r.ix = ix(sh.first); r.iy = r.nidx == 2 ? ix(sh.second < 0 ? g.range(1, 4) : sh.second) : 0;
	}
	return r;
}
std::string lit(fx v){ // exact text of a number
	std::string s = num_lit(v); fx t; 
	if (model_val(mstr(s), t) == VAL_OK && t == v) return s;
	return strf("%d/4096", 0); // never for generated values
}
std::string text(const Ref& r, G& g){
	std::string o = r.name + (r.str ? "$" : "");
	if (r.arr){ bool par = g.chance(1, 6); o += par ? "(" : "["; o += lit(r.ix); if (r.nidx == 2) o += "," + lit(r.iy); o += par ? ")" : "]"; }
	return o;
}
fx representable(G& g){ for (int i = 0; i < 8; ++i){ fx v = gen_fx(g); if (v == INT_MIN) continue; fx t; std::string s = num_lit(v); if (model_val(mstr(s), t) == VAL_OK && t == v) return v; } return 4096; }
void oom_check(Model& m, long size, int actual){
	bool must = m.used + size + 2 > m.arr + 2L * m.vmax, may = m.used + size + 2 == m.arr + 2L * m.vmax;
	if (must) throw Fail{ERR_OUT_OF_MEMORY, ERR_OUT_OF_MEMORY};
	if (may && actual == ERR_OUT_OF_MEMORY) throw Fail{ERR_OUT_OF_MEMORY, ERR_OUT_OF_MEMORY};
}
void make(Model& m, Slot& s, int d1, int d2, int actual){
	long size = (long)d1 * (d2 < 0 ? 1 : d2); oom_check(m, size, actual);
	s.made = true; s.a = Arr(); s.a.d1 = d1; s.a.d2 = d2; (s.str ? (void)s.a.s.resize(size) : (void)s.a.n.resize(size)); m.used += size + 2; m.elems += size;
}
Slot& touch(Model& m, const Ref& r){
	auto it = m.v.find(r.key()); if (it != m.v.end()) return it->second;
	if ((int)m.v.size() >= m.vmax) throw Fail{ERR_OUT_OF_MEMORY, ERR_OUT_OF_MEMORY};
	Slot s; s.arr = r.arr; s.str = r.str; return m.v[r.key()] = s;
}
// resolves a reference like the program does: creates what does not exist
std::pair<fx*, MStr*> resolve(Model& m, const Ref& r, int actual){
	// a second subscript of -1 is refused before anything else happens
	if (r.arr && r.nidx == 2 && r.iy >> 12 == -1) throw Fail{ERR_SUBSCRIPT_OUT_OF_RANGE_Y, ERR_SUBSCRIPT_OUT_OF_RANGE_X};
	Slot& s = touch(m, r);
	if (!r.arr) return {&s.n, &s.s};
	if (!s.made) make(m, s, 10, r.nidx == 2 ? 10 : -1, actual);
	int x = r.ix >> 12, y = r.nidx == 2 ? r.iy >> 12 : 0;
	bool bx = x < 0 || x >= s.a.d1, by = (y < 0 || y >= (s.a.d2 < 0 ? 1 : s.a.d2)); // a list has one row
	if (bx || by) throw Fail{bx ? ERR_SUBSCRIPT_OUT_OF_RANGE_X : ERR_SUBSCRIPT_OUT_OF_RANGE_Y, by ? ERR_SUBSCRIPT_OUT_OF_RANGE_Y : ERR_SUBSCRIPT_OUT_OF_RANGE_X};
	size_t i = x + (size_t)y * s.a.d1;
	if (s.str) return {nullptr, &s.a.s[i]}; else return {&s.a.n[i], nullptr};
}
void exec(Model& m, const Stmt& st, int actual, Case& c){
	switch (st.t){
		case Stmt::ASSIGN: { auto p = resolve(m, st.a, actual); if (st.a.str) *p.second = st.v.s; else *p.first = st.v.n; break; }
		case Stmt::COPY: { auto p = resolve(m, st.a, actual); auto q = resolve(m, st.b, actual); if (st.a.str) *p.second = *q.second; else *p.first = *q.first; break; }
		case Stmt::SWAP: { auto p = resolve(m, st.a, actual); auto q = resolve(m, st.b, actual); if (st.a.str) std::swap(*p.second, *q.second); else std::swap(*p.first, *q.first); break; }
		case Stmt::CLEARV: m.v.clear(); m.used = m.elems = 0; break;
		case Stmt::FREE: break;
		case Stmt::LOOPCLEAR: { fx z = m.v["Z"].n; m.v.clear(); m.used = m.elems = 0; Slot& s = m.v["Z"]; s.arr = s.str = false; s.n = z; throw Fail{ERR_NEXT_WITHOUT_FOR, ERR_NEXT_WITHOUT_FOR}; }
		case Stmt::DIM:
			for (size_t i = 0; i < st.dims.size(); ++i){
				const Ref& r = st.dims[i]; auto sz = st.sz[i];
				if (sz.first < 0 || (r.nidx == 2 && sz.second < 0)) throw Fail{ERR_OUT_OF_RANGE, ERR_OUT_OF_RANGE};
				auto it = m.v.find(r.key());
				if (it != m.v.end() && it->second.made) throw Fail{ERR_DUPLICATE_DIM, ERR_DUPLICATE_DIM};
				long size = (long)sz.first * (r.nidx == 2 ? sz.second : 1);
				if (it == m.v.end() && (int)m.v.size() >= m.vmax) throw Fail{ERR_OUT_OF_MEMORY, ERR_OUT_OF_MEMORY};
				oom_check(m, size, actual);
				Slot& s = touch(m, r); make(m, s, sz.first, r.nidx == 2 ? sz.second : -1, actual);
			}
			break;
		case Stmt::FILL: { // FOR R=.. fills a row of a number array
			int n = st.sz[0].first; 
			for (int i = 0; i < n; ++i){ Ref r = st.a; r.ix = i << 12; m.v["R"].n = i << 12; *resolve(m, r, actual).first = (i << 12) + st.v.n; }
			m.v["R"].n = n << 12; break; }
	}
}
bool ids_mode = false;
Stmt gen_stmt(G& g){
	Stmt s;
	for (;;){
		static const Stmt::T ts[] = {Stmt::ASSIGN, Stmt::COPY, Stmt::DIM, Stmt::SWAP, Stmt::FREE, Stmt::FILL, Stmt::CLEARV, Stmt::LOOPCLEAR};
		s = Stmt(); s.t = ts[g.weighted({60, 24, 18, 12, 6, 9, ids_mode ? 7 : 3, 1})]; if (ids_mode && s.t == Stmt::FREE) continue; // all names of the program count at once
		switch (s.t){
			case Stmt::ASSIGN: s.a = gen_ref(g); if (s.a.str){ int n = g.range(0, 4); for (int i = 0; i < n; ++i) s.v.s += (uint8_t)("abXY09"[g.below(6)]); s.text = text(s.a, g) + "=\"" + std::string(s.v.s.begin(), s.v.s.end()) + "\""; }
				else { s.v.n = representable(g); s.text = text(s.a, g) + "=" + lit(s.v.n); } break;
			case Stmt::COPY: s.a = gen_ref(g); s.b = gen_ref(g, s.a.str); s.text = text(s.a, g) + "=" + text(s.b, g); break;
			case Stmt::SWAP: s.a = gen_ref(g); s.b = gen_ref(g, s.a.str); s.text = "SWAP " + text(s.a, g) + "," + text(s.b, g); break;
			case Stmt::CLEARV: s.text = g.chance(1, 3) ? "GOSUB @C" : "CLEAR"; break;
			case Stmt::LOOPCLEAR: s.text = "FOR R=0 TO 3:CLEAR:Z=#:NEXT"; break; // the loop is gone with its variable
			case Stmt::FREE: s.text = "R=FREEVAR"; break;
			case Stmt::DIM: { s.text = "DIM ";
				for (int i = 0, k = g.weighted({5, 2, 1}) + 1; i < k; ++i){ Ref r = gen_ref(g, -1, 1); auto sh = shapes[r.key()];
					std::pair<int,int> sz = {sh.first, sh.second < 0 ? 0 : sh.second};
					if (g.chance(1, 10)){ static const int b[] = {0, -1, 1, 200, 5000, 262143, 524287, 65536, 46341, -2}; sz.first = b[g.below(10)]; if (r.nidx == 2 && g.chance(1, 2)) sz.second = b[g.below(10)]; }
					bool par = g.chance(1, 6);
					s.text += strf("%s%s%s%s%d", i ? "," : "", r.name.c_str(), r.str ? "$" : "", par ? "(" : "[", sz.first); if (r.nidx == 2) s.text += strf(",%d", sz.second); s.text += par ? ")" : "]";
					s.dims.push_back(r); s.sz.push_back(sz); }
				break; }
			case Stmt::FILL: { s.a = gen_ref(g, 0, 1); if (s.a.nidx == 2){ s.a.iy = (s.a.iy & ~4095); if (s.a.iy == INT_MIN) s.a.iy = 0; } auto sh = shapes[s.a.key()]; s.sz.push_back({sh.first, 0}); s.v.n = g.range(0, 9) << 12;
				std::string t = s.a.name + "[R" + (s.a.nidx == 2 ? "," + lit(s.a.iy) : "") + "]"; s.text = strf("FOR R=0 TO %d:%s=R+%d:NEXT", sh.first - 1, t.c_str(), s.v.n >> 12); break; }
		}
		if (s.text.size() <= 99) return s;
	}
}
void compare(Case& c, Model& m){
	// names resolved when compiling survive CLEAR, their values do not
	if (ids_mode) for (auto& n : names) if (!m.v.count(n)){ fx v = 0; if (sh_num(n.c_str(), &v) && v) c.fail("%s is %s after CLEAR", n.c_str(), fxs(v).c_str()); }
	for (auto& kv : m.v){
		const std::string& k = kv.first; Slot& s = kv.second; uint16_t b[512];
		std::string nm = k.substr(0, k.find_first_of("$["));
		if (!s.arr){
			if (s.str){ int n = sh_str((nm + "$").c_str(), b); if (n < 0 || WStr(b, n) != gwiden(s.s)) c.fail("%s is %s, expected %s", k.c_str(), n < 0 ? "missing" : showw(WStr(b, n)).c_str(), show8(s.s).c_str()); }
			else { fx v = 0x7ead; bool ok = sh_num(nm.c_str(), &v); if (!ok || v != s.n) c.fail("%s is %s, expected %s", k.c_str(), ok ? fxs(v).c_str() : "missing", fxs(s.n).c_str()); }
		} else if (s.made) for (int y = 0; y < (s.a.d2 < 0 ? 1 : s.a.d2); ++y) for (int x = 0; x < s.a.d1; ++x){
			size_t i = x + (size_t)y * s.a.d1;
			if (s.str){ int n = sh_astr((nm + "$").c_str(), x, s.a.d2 < 0 ? -1 : y, b); if (n < 0 || WStr(b, n) != gwiden(s.a.s[i])) c.fail("%s%d,%d] is %s, expected %s", k.c_str(), x, y, n < 0 ? "missing" : showw(WStr(b, n)).c_str(), show8(s.a.s[i]).c_str()); }
			else { fx v = 0x7ead; bool ok = sh_anum(nm.c_str(), x, s.a.d2 < 0 ? -1 : y, &v); if (!ok || v != s.a.n[i]) c.fail("%s%d,%d] is %s, expected %s", k.c_str(), x, y, ok ? fxs(v).c_str() : "missing", fxs(s.a.n[i]).c_str()); }
		}
	}
}
void run_case(G& g, Case& c){
	static const int vs[] = {16, 64, 256, 1024, 4096}; static const int as[] = {100, 40, 300, 2000, 262144};
	// the names can also be resolved when compiling (as REM BENCH and the editor do)
	bool ids = g.chance(1, 6); ids_mode = ids;
	Model m; m.vmax = ids ? g.pick({4096, 256, 256}) : vs[g.weighted({5, 3, 2, 1, 1})]; m.arr = as[g.weighted({3, 2, 3, 2, 1})];
	sh_new(m.vmax, 512, m.arr);
	names.clear(); shapes.clear();
	int nn = g.chance(1, 8) ? g.range(30, 60) : g.range(1, 14); for (int i = 0; i < nn; ++i) names.push_back(gen_name(g));
	std::string desc = strf("variables %d, array elements %d%s\n", m.vmax, m.arr, ids ? ", names resolved when compiling" : ""); if (ids) c.label("names resolved when compiling");
	int done = 0;
	// the helper variables exist from the start
	for (const char* h : {"Z", "R"}){ m.v[h].arr = m.v[h].str = false; }
	if (run_prog("Z=0:R=0\r")) c.fail("start failed");
	for (int p = 0; g.item(p, 1, 4, 2, 3); ++p){
		int n = 0; std::vector<Stmt> ss; std::string src;
		for (int i = 0; g.item(i, 1, 60, 15, 16); ++i, ++n){ ss.push_back(gen_stmt(g)); { auto& t = ss.back().text; size_t at = t.find('#'); if (at != std::string::npos) t.replace(at, 1, std::to_string(i)); } src += ss.back().text + "\r" + (ss.back().t == Stmt::CLEARV ? "R=0:" : "") + strf("Z=%d\r", i + 1); }
		if (src.find("@C") != std::string::npos) src += "END\r@C\rCLEAR:RETURN\r";
		desc += strf("--- program %d\n", p) + show(src); c.text = desc; note_text(desc);
		sh_set_num("Z", 0); m.v["Z"].n = 0;
		int err = sh_run(src.data(), src.size(), ids ? 2 : 0), k = get_num("Z") >> 12;
		if (k < 0 || k > n || (!err && k != n)) c.fail("program %d: error %s but %d of %d statements completed", p, err_name(err).c_str(), k, n);
		for (int i = 0; i < (err ? k + 1 : n); ++i){
			int actual = i < k ? 0 : err; Fail f{0, 0}; 
			try { exec(m, ss[i], actual, c); } catch (Fail& x){ f = x; }
			if (actual != f.code && actual != f.alt) c.fail("program %d statement %d `%s`: %s, expected %s", p, i + 1, ss[i].text.c_str(), err_name(actual).c_str(), err_name(f.code).c_str());
			if (f.code) c.label("error " + err_name(f.code));
			static const char* tn[] = {"assign", "copy", "DIM", "CLEAR", "SWAP", "FREEVAR", "FOR fill", "CLEAR in a loop"}; c.label(tn[ss[i].t]);
			if (!f.code){
				if (ss[i].t == Stmt::CLEARV) for (const char* h : {"R", "Z"}){ m.v[h].arr = m.v[h].str = false; m.v[h].n = 0; }
				if (ss[i].t == Stmt::FREE) m.v["R"].n = (m.vmax - (int)m.v.size()) << 12;
				m.v["Z"].n = (i + 1) << 12; ++done;
			}
		}
		compare(c, m); if (err && !m.v.count("R")){ if (run_prog("R=0\r")) c.fail("R=0 fails"); m.v["R"].arr = m.v["R"].str = false; }
	}
	if ((int)m.v.size() == m.vmax) c.label("variable table completely full");
	if (m.vmax == 16 && m.v.size() > 8) c.label("more than half of the slots used");
	c.nontrivial(done >= 3);
}
}
const Prop the_prop = {"P04", run_case, 250000, 8000000,
	"One case = 1..4 programs on one system with 16..4096 variable slots and 40..262144 array elements; statements assign, copy, swap, DIM (one or more arrays, also of bad and huge sizes), fill arrays in loops, CLEAR and read FREEVAR, over 1..60 related names (differing in one character, case, length or type only) and subscripts inside, at, and outside the bounds, fractional and negative. After each program every variable and element ever touched is compared with a map model, and the error and failing statement with the model's. Non-trivial: at least three statements completed. Distinct by program texts and table sizes.", nullptr};

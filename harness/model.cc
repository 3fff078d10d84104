#include "model.h"
std::string show(const std::string& p){
	std::string o;
	for (unsigned char c : p){ if (c == '\r') o += "\n"; else if (c < 32 || c >= 127 || c == '\\') o += strf("\\x%02x", c); else o += c; }
	return o;
}
std::string show8(const MStr& s){ return "\"" + show(std::string(s.begin(), s.end())) + "\""; }
std::string showw(const WStr& s){ std::string o = "\""; for (uint16_t c : s) o += (c >= 32 && c < 127) ? std::string(1, (char)c) : strf("\\u%04x", c); return o + "\""; }
WStr widen(const MStr& s){ WStr w; for (uint8_t c : s) w += sh_to_wide(c); return w; }
int run_prog(const std::string& src, int opts){ return sh_run(src.data(), (int)src.size(), opts); }
std::string blow_up(const std::string& src, int line, int n){
	size_t at = 0; for (int i = 0; i < line; ++i){ size_t q = src.find('\r', at); if (q == std::string::npos) break; at = q + 1; }
	std::string f = "GOTO @ZZBIG\r", one = "PRINT \"" + std::string(91, 'x') + "\"\r"; for (int i = 0; i < n; ++i) f += one;
	return src.substr(0, at) + f + "@ZZBIG\r" + src.substr(at);
}
WStr get_str(const std::string& name){ uint16_t b[512]; int n = sh_str(name.c_str(), b); if (n < 0 || n > 512) return WStr(1, 0xffff); return WStr(b, n); }
fx get_num(const std::string& name){ fx v = 0x7ead; sh_num(name.c_str(), &v); return v; }
std::string err_name(int e){ return strf("%d(%s)", e, e >= 0 && e < 100 ? sh_error_text(e) : "?"); }
std::string fxs(fx v){ return strf("%d/4096(%.6f)", v, v / 4096.0); }
fx gen_int_fx(G& g, int lo, int hi){ return (fx)((uint32_t)g.range(lo, hi) << 12); }
fx gen_fx(G& g){
	switch (g.weighted({6, 4, 3, 3, 3, 2, 2, 2})){
		case 0: return gen_int_fx(g, -10, 10);
		case 1: return (fx)g.range(-20 * 4096, 20 * 4096);
		case 2: return gen_int_fx(g, -1000, 1000);
		case 3: { static const fx b[] = {0, 1, -1, 4096, -4096, 2048, -2048, 4095, 4097, -4095, -4097, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 0x7ffff000, (fx)0x80001000, 0x7fffefff, 0x40000000, -0x40000000, 0x3fffffff, 362 * 4096, 363 * 4096, 724 * 4096, 725 * 4096, 12867, 6433, 6434, 2965820, 2965821}; return b[g.below(sizeof b / sizeof *b)]; }
		case 4: return gen_int_fx(g, -524288, 524287);
		case 5: return (fx)g.bits();
		case 6: { int sh = g.range(0, 31); fx v = (fx)(1u << sh); v += g.range(-2, 2); return g.chance(1, 2) ? (fx)-(uint32_t)v : v; }
		default: return (fx)g.range(-4096, 4096);
	}
}
std::string num_lit(fx v){
	// magnitude as integer part and up to 5 decimals such that truncation gives back v
	int64_t m = v < 0 ? -(int64_t)v : v; std::string o = v < 0 ? "-" : "";
	int64_t ip = m >> 12, fr = m & 4095;
	o += std::to_string(ip);
	if (fr){
		for (int d = 1; d <= 5; ++d){
			int64_t p = 1; for (int i = 0; i < d; ++i) p *= 10;
			int64_t k = (fr * p + 4095) / 4096;
			if (k < p && k * 4096 / p == fr) return o + "." + std::string(d - std::to_string(k).size(), '0') + std::to_string(k);
		}
	}
	return o;
}
std::string spaces(G& g){ return std::string(g.weighted({12, 3, 1}), ' '); }
std::string rcase(G& g, const std::string& kw){
	int m = g.weighted({8, 1, 1}); std::string o = kw;
	for (char& c : o) if (m == 1 || (m == 2 && g.chance(1, 2))) c = tolower(c);
	return o;
}
bool runs_alone(char c){ return !(isalnum((unsigned char)c) || c == '_' || c == '$' || c == '.'); }
const uint16_t golden_wide[256] = {0x0,0x1,0x2,0x3,0x4,0x5,0x6,0x7,0x8,0x9,0xa,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x14,0x15,0x16,0x17,0x18,0x19,0x1a,0x1b,0x1c,0x1d,0x1e,0x1f,0x20,0xff01,0x201d,0xff03,0xff04,0xff05,0xff06,0x2019,0xff08,0xff09,0xff0a,0xff0b,0xff0c,0xff0d,0xff0e,0xff0f,0xff10,0xff11,0xff12,0xff13,0xff14,0xff15,0xff16,0xff17,0xff18,0xff19,0xff1a,0xff1b,0xff1c,0xff1d,0xff1e,0xff1f,0xff20,0xff21,0xff22,0xff23,0xff24,0xff25,0xff26,0xff27,0xff28,0xff29,0xff2a,0xff2b,0xff2c,0xff2d,0xff2e,0xff2f,0xff30,0xff31,0xff32,0xff33,0xff34,0xff35,0xff36,0xff37,0xff38,0xff39,0xff3a,0xff3b,0xffe5,0xff3d,0xff3e,0xff3f,0xff40,0xff41,0xff42,0xff43,0xff44,0xff45,0xff46,0xff47,0xff48,0xff49,0xff4a,0xff4b,0xff4c,0xff4d,0xff4e,0xff4f,0xff50,0xff51,0xff52,0xff53,0xff54,0xff55,0xff56,0xff57,0xff58,0xff59,0xff5a,0xff5b,0xff5c,0xff5d,0xff5e,0xff5f,0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x3002,0x300c,0x300d,0x3001,0x30fb,0x30f2,0x30a1,0x30a3,0x30a5,0x30a7,0x30a9,0x30e3,0x30e5,0x30e7,0x30c3,0xff70,0x30a2,0x30a4,0x30a6,0x30a8,0x30aa,0x30ab,0x30ad,0x30af,0x30b1,0x30b3,0x30b5,0x30b7,0x30b9,0x30bb,0x30bd,0x30bf,0x30c1,0x30c4,0x30c6,0x30c8,0x30ca,0x30cb,0x30cc,0x30cd,0x30ce,0x30cf,0x30d2,0x30d5,0x30d8,0x30db,0x30de,0x30df,0x30e0,0x30e1,0x30e2,0x30e4,0x30e6,0x30e8,0x30e9,0x30ea,0x30eb,0x30ec,0x30ed,0x30ef,0x30f3,0x309b,0x309c,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff};
WStr gwiden(const MStr& s){ WStr w; for (uint8_t c : s) w += golden_wide[c]; return w; }
MStr mstr(const std::string& s){ return MStr(s.begin(), s.end()); }
MStr model_str(fx v){
	int64_t m = v < 0 ? -(int64_t)v : v, ip = m >> 12, d = (((m & 4095) + 2) * 1000) >> 12;
	if (d >= 1000){ d -= 1000; ++ip; }
	std::string o = (v < 0 ? "-" : "") + std::to_string(ip);
	if (d){ o += strf(".%03d", (int)d); while (o.back() == '0') o.pop_back(); }
	return mstr(o);
}
int model_val(const MStr& s, fx& out){
	size_t i = 0; out = 0;
	if (s.size() > 1 && s[0] == '&'){
		int base = s[1] == 'H' ? 16 : s[1] == 'B' ? 2 : 0; if (!base) return ERR_SYNTAX;
		if (s.size() > 2 && s[2] == '-') return VAL_UNSPEC;
		int64_t n = 0;
		for (i = 2; i < s.size(); ++i){
			int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
			if (d >= base) break; n = n * base + d; if (n > 0xfffff) return VAL_UNSPEC;
		}
		out = (fx)((uint32_t)n << 12); return VAL_OK;
	}
	bool neg = false; if (i < s.size() && s[i] == '-'){ neg = true; ++i; }
	int64_t n = 0, f = 0, m = 1;
	for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i){ n = n * 10 + s[i] - '0'; if (n > 524288) return VAL_UNSPEC; }
	if (i < s.size() && s[i] == '.') for (++i; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) if (m < 1000000000000){ f = f * 10 + s[i] - '0'; m *= 10; }
	__int128 v = (__int128)n * 4096 + (__int128)4096 * f / m; if (neg) v = -v;
	if (v > INT32_MAX || v < INT32_MIN) return VAL_UNSPEC;
	out = (fx)v; return VAL_OK;
}
int cmp_wide(const MStr& a, const MStr& b){
	WStr x = gwiden(a), y = gwiden(b);
	return x < y ? -1 : y < x ? 1 : 0;
}
size_t line_weight(const std::string& l){ size_t n = 0; bool q = false; for (char c : l){ if (c == '"'){ if (!q) ++n; q = !q; } else if (!q) ++n; } return n; }
MStr gen_mstr(G& g, int maxlen){
	int n = 0;
	switch (g.weighted({8, 3, 3, 1})){
		case 0: n = g.range(0, 8); break;
		case 1: { static const int b[] = {0, 1, 2, 127, 128, 129, 254, 255, 256}; n = b[g.below(9)]; break; }
		case 2: n = g.range(0, 256); break;
		default: n = 256 - g.range(0, 4);
	}
	if (n > maxlen) n = maxlen;
	MStr s; int mode = g.weighted({4, 3, 2, 3, 1});
	uint8_t c0 = (uint8_t)g.below(256);
	for (int i = 0; i < n; ++i){
		uint8_t c;
		switch (mode){
			case 0: c = 'A' + g.below(3); break;
			case 1: { static const char t[] = "AB0123456789.-&HF ab\"'\\"; c = t[g.below(sizeof t - 1)]; break; }
			case 2: c = (uint8_t)g.below(256); break;
			case 3: c = '0' + g.below(10); break;
			default: c = c0;
		}
		s += c;
	}
	if (mode == 3 && n){ // number-like text
		switch (g.below(6)){ case 1: s[0] = '-'; break; case 2: s[g.below(n)] = '.'; break; case 3: s[0] = '&'; if (n > 1) s[1] = g.chance(1, 2) ? 'B' : 'H'; break; case 4: s[g.below(n)] = 'E'; break; case 5: s[0] = '-'; s[g.below(n)] = '.'; break; }
		if (n > 9 && g.chance(2, 3)) s.resize(g.range(1, 9));
	}
	return s;
}

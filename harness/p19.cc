// P19: memory statements and functions against byte arrays.
#include "model.h"
extern "C" { uint8_t* sh_membase(); int sh_mem_size(); uint8_t* sh_chr(int); uint8_t* sh_col(int); uint16_t* sh_scr(int, int); int sh_storage(char, const char*, uint8_t**, int*); uint8_t* sh_mem_data(); }
namespace {
const int64_t BASE = 0x02000000; const int TAIL = 65536, NREG = 5;
struct Read { std::string what; int idx; int64_t want; };
void run_case(G& g, Case& c){
	sh_redzones(false); sh_new(128, 256, 4096); uint8_t* mem = sh_membase(); const int SIZE = sh_mem_size(); const int64_t END = BASE + SIZE; run_prog("DIM R[600]\r");
	struct Reg { uint8_t* p; int n; int64_t a; }; static Reg reg[NREG]; for (int i = 0; i < 4; ++i) reg[i] = {sh_grp_raw(i), 49152, 0}; reg[4] = {mem + SIZE - TAIL, TAIL, 0}; for (auto& r : reg) r.a = r.p - mem + BASE;
	static std::vector<uint8_t> M[NREG]; { uint64_t r = g.bits() | 1; for (int i = 0; i < NREG; ++i){ M[i].assign(reg[i].n, 0); for (auto& b : M[i]){ r = r * 6364136223846793005ull + 1442695040888963407ull; b = r >> 56; } memcpy(reg[i].p, M[i].data(), reg[i].n); } }
	auto other = [&]{ uint64_t h = 1469598103934665603ull; auto add = [&](const uint8_t* p, int n){ for (int i = 0; i < n; i += 8){ uint64_t q; memcpy(&q, p + i, 8); h = (h ^ q) * 1099511628211ull; } }; for (int i = 0; i < 44; ++i) add(sh_chr(i), 8192); for (int i = 0; i < 6; ++i) add(sh_col(i), 512); for (int s = 0; s < 2; ++s) for (int i = 0; i < 4; ++i) add((uint8_t*)sh_scr(s, i), 8192); return h; };
	uint64_t h0 = other(); std::vector<Read> reads; std::string P, all; int nr = 0, writes = 0, nreads = 0, errs = 0; bool safe = false; fx V[4] = {0, 0, 0, 0}; static const char* VN[4] = {"V0", "V1", "V2", "ABCDEFGHIJKLMNOP"}; // the longest name
	auto lit = [&](int64_t a){ return a == INT32_MIN || a <= -(524287ll << 12) ? strf("(-524287-%s)", num_lit((fx)(-(524287ll << 12) - a)).c_str()) : num_lit((fx)a); };
	auto check = [&](int want){ c.text = show(all); note_text(c.text); int e = run_prog(P); P.clear(); if (want < 0 ? e == 0 : e != want) c.fail("ends with %s, expected %s", err_name(e).c_str(), want < 0 ? "an error" : err_name(want).c_str());
		for (auto& r : reads){ fx v; sh_anum("R", r.idx, -1, &v); if (v != (fx)r.want) c.fail("%s is %s (raw %08x), expected raw %08x", r.what.c_str(), fxs(v).c_str(), v, (fx)r.want); } reads.clear();
		for (int i = 0; i < NREG; ++i) if (memcmp(reg[i].p, M[i].data(), reg[i].n)) for (int k = 0; k < reg[i].n; ++k) if (reg[i].p[k] != M[i][k]) c.fail("%s byte %d is %d, expected %d", i < 4 ? strf("GRP%d", i).c_str() : "memory at the end", k, reg[i].p[k], M[i][k]);
		for (int i = 0; i < 4; ++i){ fx v; sh_num(VN[i], &v); if (v != V[i]) c.fail("variable %s is raw %08x, expected %08x", VN[i], v, V[i]); } };
	auto rd = [&](const std::string& w, int64_t want){ reads.push_back({w, nr, want}); return strf("R[%d]=", nr++) + w; };
	int hot = g.below(NREG), hofs = g.below(reg[hot].n - 600);
	auto spot = [&](int n, int& r, int& o){ if (n < 1) n = 1; r = g.chance(2, 3) ? hot : g.below(NREG); int w = g.weighted({5, 2, 2, 2}); o = w == 0 ? hofs % (reg[r].n - 600) + g.below(600) : w == 1 ? 0 : w == 2 ? reg[r].n - n - (int)g.below(4) : (int)g.below(reg[r].n); if (o < 0) o = 0; if (o + n > reg[r].n) o = reg[r].n - n; };
	auto addr = [&](int r, int o){ if (r < 4 && g.chance(1, 2)) return g.chance(1, 4) && o == 0 ? strf("ADDR(\"GRP%d\")", r) : strf("ADDR(\"GRP%d\",%d)", r, o); return lit(reg[r].a + o); };
	auto badaddr = [&](int n) -> int64_t { switch (g.below(7)){ case 0: return BASE - 1 - g.range(0, 8); case 1: return END - n + 1 + g.range(0, 2); case 2: return END + g.range(0, 8); case 3: return 0x7fffffff - (int)g.range(0, 4); case 4: return -(int64_t)(1 + g.below(0x7fffffff)); case 5: return 1 + g.below(BASE - 8); default: return END + g.below(0x7fffffff - END); } };
	for (int k = 0; g.item(k, 2, 50, 20, 21) && nr < 580; ++k){
		std::string s; int err = 0, r, o; int op = g.weighted({10, 10, 6, 5, 3, 5, 5, 3, 3, 2, 1, 2, 2}); static const int W[3] = {4, 2, 1}; static const char* SUF[3] = {"", "H", "B"};
		switch (op){
			case 0: { int t = g.below(3), n = W[t]; spot(n, r, o); fx v = g.chance(1, 2) ? gen_fx(g) : gen_int_fx(g, -300, 70000); if (v <= -(524287 << 12)) v = -(524287 << 12); std::string a = addr(r, o);
				if (safe && g.chance(1, 6)){ a = lit(badaddr(n)); err = ERR_ILLEGAL_ADDRESS; } else if (g.chance(1, 25)){ a = "0"; err = ERR_NULL_ADDRESS; } s = strf("POKE%s ", SUF[t]) + a + "," + num_lit(v); if (!err){ uint32_t x = t ? (uint32_t)(v >> 12) : (uint32_t)v; for (int i = 0; i < n; ++i) M[r][o + i] = x >> 8 * i; ++writes; } break; }
			case 1: { int t = g.below(3), n = W[t]; spot(n, r, o); std::string a = addr(r, o); if (safe && g.chance(1, 6)){ a = lit(badaddr(n)); err = ERR_ILLEGAL_ADDRESS; } else if (g.chance(1, 25)){ a = "0"; err = ERR_NULL_ADDRESS; } uint32_t x = 0; for (int i = 0; i < n; ++i) x |= (uint32_t)M[r][o + i] << 8 * i; if (t) x <<= 12; std::string w = strf("PEEK%s(", SUF[t]) + a + ")"; if (err) s = "Z=" + w; else { s = rd(w, (fx)x); ++nreads; } break; }
			case 2: { int w = g.weighted({3, 4, 2, 1}), n = w == 0 ? g.range(0, 4) : w == 1 ? g.range(0, 300) : w == 2 ? g.range(0, 5000) : g.range(0, 49152), r2, o2; spot(n, r, o); spot(n, r2, o2); if (r == r2 && g.chance(1, 3)){ o2 = g.chance(1, 2) ? o + n : o + n - 1 - (int)g.below(n + 1); if (o2 < 0) o2 = 0; if (o2 + n > reg[r].n) o2 = 0; if (o2 + n > reg[r].n) continue; }
				std::string a = addr(r, o), b = addr(r2, o2), z = strf("%d", n); if (r == r2 && n && o < o2 + n && o2 < o + n) err = ERR_ILLEGAL_FUNCTION_CALL;
				if (g.chance(1, 20)){ (g.chance(1, 2) ? a : b) = "0"; err = ERR_NULL_ADDRESS; } else if (safe && g.chance(1, 8)){ (g.chance(1, 2) ? a : b) = lit(g.chance(1, 2) ? badaddr(1) : END + g.range(0, 9)); err = ERR_ILLEGAL_ADDRESS; } else if (g.chance(1, 30)){ z = strf("-%d", g.range(1, 9)); err = ERR_OUT_OF_RANGE; } else if (safe && g.chance(1, 10)){ int q = g.range(0, 300); n = q + 1 + g.range(0, 1); if (g.chance(1, 4)) n = 524287; z = strf("%d", n); (g.chance(1, 2) ? a : b) = lit(END - q); if (q == 0) err = -1; else err = ERR_ILLEGAL_FUNCTION_CALL; }
				s = "MEMCOPY " + a + "," + b + "," + z; if (!err){ std::vector<uint8_t> q(M[r2].begin() + o2, M[r2].begin() + o2 + n); std::copy(q.begin(), q.end(), M[r].begin() + o); writes += n > 0; } break; }
			case 3: { int w = g.weighted({3, 4, 2, 1}), n = w == 0 ? g.range(0, 4) : w == 1 ? g.range(0, 300) : w == 2 ? g.range(0, 5000) : g.range(0, 49152); spot(n, r, o); std::string a = addr(r, o), z = strf("%d", n); fx v = g.chance(1, 2) ? gen_int_fx(g, 0, 255) : g.chance(1, 2) ? gen_int_fx(g, -300, 70000) : gen_fx(g); if (v <= -(524287 << 12)) v = -(524287 << 12);
				if (g.chance(1, 20)){ a = "0"; err = ERR_NULL_ADDRESS; } else if (safe && g.chance(1, 8)){ a = lit(badaddr(1)); err = ERR_ILLEGAL_ADDRESS; } else if (g.chance(1, 30)){ z = strf("-%d", g.range(1, 9)); err = ERR_OUT_OF_RANGE; } else if (safe && g.chance(1, 10)){ int q = g.range(1, 300); a = lit(END - q); z = strf("%d", g.chance(1, 4) ? 524287 : q + g.range(1, 2)); err = ERR_ILLEGAL_FUNCTION_CALL; }
				s = "MEMFILL " + a + "," + num_lit(v) + "," + z; if (!err){ std::fill(M[r].begin() + o, M[r].begin() + o + n, (uint8_t)(v >> 12)); writes += n > 0; } break; }
			case 4: safe = g.chance(2, 3); s = strf("MEMSAFE=%s", safe ? g.pick({"TRUE", "1", "-5", "0.5+0.5"}) : "0"); break;
			case 5: { int i = g.below(4); int w = g.weighted({4, 4, 1}); if (w == 0){ V[i] = gen_fx(g); if (V[i] <= -(524287 << 12)) V[i] = 0; s = strf("POKE ADDR(\"&%s\"),", VN[i]) + num_lit(V[i]); ++writes; } else if (w == 1){ s = rd(strf("PEEK(ADDR(\"&%s\"))", VN[i]), V[i]); ++nreads; }
				else { if (!P.empty()) check(0); static const char* T[] = {"", "$", "[]", "$[]"}; int t = g.below(4); std::string nm = std::string(g.pick({"W", "ZZ_9", "ABCDEFGHIJKLMNOP"})); P = strf("U=ADDR(\".%s%s\")\r", nm.c_str(), T[t]); all += P; check(0); uint8_t* p; int z; sh_storage("0123"[t], nm.c_str(), &p, &z); if (get_num("U") != BASE + (p - mem)) c.fail("ADDR(\".%s%s\") is raw %08x, the variable is at %08x", nm.c_str(), T[t], get_num("U"), (int)(BASE + (p - mem))); continue; } break; }
			case 6: { // resources
				static const struct { const char* t; int kind, idx; } T[] = {{"BGF0U", 0, 0}, {"BGD1U", 0, 5}, {"BGU3U", 0, 11}, {"SPU0", 0, 12}, {"SPU7", 0, 19}, {"SPS1U", 0, 21}, {"BGF0L", 0, 22}, {"BGU0L", 0, 30}, {"SPD3", 0, 37}, {"SPS0L", 0, 42}, {"BGU1", 0, 9}, {"COL1", 1, 1}, {"COL2L", 1, 5}, {"COL0U", 1, 0}, {"SCU0U", 2, 2}, {"SCU1L", 2, 7}, {"SCU1", 2, 3}, {"GRP", 3, 0}, {"GRP3", 3, 3}, {"BGU", 0, 8}, {"MEM", 4, 0}};
				auto& t = T[g.below(21)]; int n = t.kind == 4 ? 516 : t.kind == 1 ? 512 : t.kind == 3 ? 49152 : 8192; const uint8_t* p = t.kind == 4 ? sh_mem_data() : t.kind == 0 ? sh_chr(t.idx) : t.kind == 1 ? sh_col(t.idx) : t.kind == 2 ? (uint8_t*)sh_scr(t.idx / 4, t.idx % 4) : sh_grp_raw(t.idx); int i = g.chance(1, 3) ? n - 1 : g.below(n); if (safe && g.chance(1, 6)){ i = g.chance(1, 2) ? n + (g.chance(1, 2) ? 0 : g.below(400000)) : -1 - (int)g.below(9); err = ERR_ILLEGAL_OFFSET; }
				std::string w = strf("ADDR(\"%s\",%d)", t.t, i); if (err) s = "Z=" + w; else s = rd(w, BASE + (p - mem) + i); break; }
			case 7: { static const char* N[] = {"CONSOLE", "BG", "SPRITE", "GRAPHICS", "PANEL", "RESOURCE", "INPUT", "VAR", "STR", "ARRAY", "SYSTEM", "EXEC", "SOURCE", "BYTECODE"}; const char* n = N[g.below(14)]; uint8_t* p; int z; sh_storage('!', n, &p, &z); int i = g.chance(1, 2) ? 0 : g.below(z); if (safe && g.chance(1, 6)){ i = g.chance(1, 2) ? z : -1; err = ERR_ILLEGAL_OFFSET; } std::string w = strf("ADDR(\"!%s\",%d)", n, i); if (!i && g.chance(1, 2)) w = strf("ADDR(\"!%s\")", n); if (err) s = "Z=" + w; else s = rd(w, BASE + (p - mem) + i); break; }
			case 8: { // arrays and strings, in a program of its own because storage is looked up afterwards
				if (!P.empty()) check(0); int n = g.range(1, 20), i = g.below(n); std::string nm = strf("Q%d", k); fx v = gen_int_fx(g, -9999, 9999); std::string t; for (int q = g.range(2, 20); q > 0; --q) t += (char)g.range(65, 90); int ti = g.below(t.size()), ch = g.range(97, 122);
				P = strf("DIM %s[%d]:%s[%d]=%s:X=ADDR(\"&%s[]\"):Y=ADDR(\"&%s[]\",%d)\r", nm.c_str(), n, nm.c_str(), i, num_lit(v).c_str(), nm.c_str(), nm.c_str(), 8 * i); P += strf("T$=\"%s\"+\"%s\":U=ADDR(\"&T$\"):W=PEEKB(U+%s)\r", t.substr(0, 1).c_str(), t.substr(1).c_str(), num_lit(ti).c_str()); P += strf("POKEB ADDR(\"&T$\",%d),%d\r", ti, ch); all += P; check(0);
				uint8_t* p; int z; sh_storage('N', nm.c_str(), &p, &z); if (get_num("X") != BASE + (p - mem)) c.fail("ADDR(\"&%s[]\") is raw %08x, the array is at %08x", nm.c_str(), get_num("X"), (int)(BASE + (p - mem))); if (get_num("Y") != BASE + (p - mem) + 8 * i) c.fail("ADDR with an offset of %d is %08x", 8 * i, get_num("Y"));
				sh_storage('s', "T", &p, &z); if (get_num("U") != BASE + (p - mem)) c.fail("ADDR(\"&T$\") is raw %08x, the text is at %08x", get_num("U"), (int)(BASE + (p - mem))); if (get_num("W") != (t[ti] << 12)) c.fail("character %d of the text at ADDR(\"&T$\") is %s, expected %d", ti, fxs(get_num("W")).c_str(), t[ti]); t[ti] = ch; if (get_str("T") != gwiden(mstr(t))) c.fail("after POKEB into the text it is %s, expected %s", showw(get_str("T")).c_str(), t.c_str());
				// an element through the address of its array
				if (p){ uint8_t* q; sh_storage('N', nm.c_str(), &q, &z); int at = 0; fx u = v ? v : 1; for (; at < 8 + 8 * n + 8; at += 4){ fx x; memcpy(&x, q + at, 4); if (x == u && at >= 8) break; } if (v && at < 16 + 8 * n) { P = strf("Z=PEEK(ADDR(\"&%s[]\",%d)):POKE ADDR(\"&%s[]\",%d),7:Y=%s[%d]\r", nm.c_str(), at, nm.c_str(), at, nm.c_str(), i); all += P; check(0); if (get_num("Z") != v || get_num("Y") != 7 * 4096) c.fail("the element through the address of its array: read %s, after writing %s", fxs(get_num("Z")).c_str(), fxs(get_num("Y")).c_str()); } else if (v) c.fail("%s[%d] is not at the address of its array", nm.c_str(), i); }
				continue; }
			case 9: { spot(8, r, o); if (!P.empty()) check(0); uint8_t* tgt = g.chance(1, 8) ? nullptr : mem + g.below(SIZE); memcpy(reg[r].p + o, &tgt, 8); memcpy(&M[r][o], &tgt, 8); std::string a = addr(r, o); if (r < 4 && a[0] == 'A') a = lit(reg[r].a + o); if (safe && g.chance(1, 4)){ a = lit(badaddr(8)); err = ERR_ILLEGAL_ADDRESS; } else if (g.chance(1, 8)){ a = "0"; err = -1; } std::string w = "ADDR(\"*\"," + a + ")"; if (err) s = "Z=" + w; else s = rd(w, tgt ? BASE + (tgt - mem) : 0); all += strf("' pointer to raw %08x put at raw %08x\r", (int)(tgt ? BASE + (tgt - mem) : 0), (int)(reg[r].a + o)); break; }
			case 10: { static const char* B[] = {"", "X", "GRP4", "!NONE", "&", ".", "!", "BGU4", "SPD0U", "&ABCDEFGHIJKLMNOPQ", "grp0"}; s = strf("Z=ADDR(\"%s\")", B[g.below(11)]); err = -1; break; }
			case 11: { // the first bytes of the window
				int n = g.range(0, 3); int64_t a = BASE + (g.chance(1, 2) ? 0 : 4 * g.below(4)); std::string at = lit(a); spot(n, r, o); int w = g.below(5); if (w < 2){ int t = g.below(3); uint32_t x = 0; for (int i = 0; i < W[t]; ++i) x |= (uint32_t)mem[a - BASE + i] << 8 * i; s = rd(strf("PEEK%s(", SUF[t]) + at + ")", (fx)(t ? x << 12 : x)); } else if (w == 2){ s = "MEMCOPY " + addr(r, o) + "," + at + strf(",%d", n); for (int i = 0; i < n; ++i) M[r][o + i] = mem[a - BASE + i]; } else if (w == 3) s = "MEMCOPY " + at + "," + addr(r, o) + ",0"; else s = "MEMFILL " + at + ",5,0"; break; }
			default: { fx v = g.chance(1, 2) ? gen_fx(g) : (fx)g.bits(); if (v <= -(524287 << 12)) v = 0; if (!P.empty()) check(0); P = "T$=PTR$(" + num_lit(v) + ")\r"; all += P; check(0); if (get_str("T") != gwiden(mstr(strf("0x%08X", v)))) c.fail("PTR gives %s for raw %08X", showw(get_str("T")).c_str(), v); continue; }
		}
		if (s.size() > 98){ c.text = show(all); if (reads.size() && reads.back().idx == nr - 1 && s[0] == 'R') { reads.pop_back(); --nr; } else if (!err && s[0] != 'R'){ /* undo is not worth it: run it in two lines */ size_t q = s.find(' '); std::string rest = s.substr(q + 1), pre; (void)pre; int depth = 0; std::vector<std::string> args(1); for (char ch : rest){ if (ch == '(') ++depth; if (ch == ')') --depth; if (ch == ',' && !depth){ args.push_back(""); continue; } args.back() += ch; } std::string z; for (size_t i = 0; i < args.size(); ++i){ z += strf("A%zu=", i) + args[i] + "\r"; } z += s.substr(0, q + 1); for (size_t i = 0; i < args.size(); ++i) z += strf("%sA%zu", i ? "," : "", i); s = z; goto emit; } continue; }
		emit: P += s + "\r"; all += s + "\r"; if (err){ ++errs; check(err); } else if (g.chance(1, 6)) check(0);
	}
	c.text = show(all); note_text(c.text); if (!P.empty()) check(0); if (other() != h0) c.fail("memory statements changed a resource that was not addressed");
	c.label("writes", writes); c.label("reads", nreads); c.label("reported accesses", errs); c.nontrivial(writes && nreads);
}
}
const Prop the_prop = {"P19", run_case, 20000, 1000000,
	"One case = a history of up to 50 POKE/POKEH/POKEB, PEEK/PEEKH/PEEKB, MEMCOPY, MEMFILL, MEMSAFE, ADDR and PTR operations on the four graphics pages and the last 64 KB of the memory window (edges, adjacent and overlapping ranges; with MEMSAFE any address of the 32-bit range). After each program every byte of these regions, the reads, the other resources and the error are compared with byte arrays. Non-trivial: a write and a read.", nullptr};

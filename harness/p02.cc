// P02: string operators and functions against a plain sequence-of-characters model.
#include "strexpr.h"
namespace {
void run_case(G& g, Case& c){
	sh_new(64, 64, 256);
	bool str = g.chance(3, 5); int depth = g.weighted({1, 4, 5, 3, 1}); 
	PE e = str ? gens(g, depth) : genn(g, depth);
	Env v; std::string desc;
	for (int i = 0; i < 3; ++i){ v.sv[i] = gen_mstr(g); if (i && g.chance(1, 4)){ v.sv[i] = v.sv[0]; if (!v.sv[i].empty() && g.chance(2, 3)){ if (g.chance(1, 2)) v.sv[i].resize(g.below(v.sv[i].size())); else v.sv[i][g.below(v.sv[i].size())] ^= 1 << g.below(8); } } }
	for (int i = 0; i < 2; ++i) v.arr[i] = v.sv[g.below(3)];
	for (int i = 0; i < 3; ++i) v.nv[i] = gen_arg(g);
	// the target may be one of the operands
	int tgt = str ? g.weighted({4, 1, 1, 1}) : 0; const char* tn[] = {"R$", "A$", "B$", "S$[0]"};
	std::string t; pr(g, *e, 0, t);
	std::string src = "DIM S$[2]\r"; 
	for (int i = 0; i < 2; ++i) src += strf("S$[%d]=T%d$\r", i, i);
	std::string line = (str ? std::string(tn[tgt]) : std::string("R")) + "=" + t;
	if (line_weight(line) > 99){ c.label("discarded: longer than a line"); return; }
	src += line + "\rDONE=1\r";
	for (int i = 0; i < 3; ++i){ sh_set_str(svars[i], v.sv[i].data(), v.sv[i].size()); sh_set_num(nvars[i], v.nv[i]); desc += strf("%s=%s ", svars[i], show8(v.sv[i]).c_str()); desc += strf("%s=%s ", nvars[i], fxs(v.nv[i]).c_str()); }
	for (int i = 0; i < 2; ++i){ sh_set_str(strf("T%d$", i).c_str(), v.arr[i].data(), v.arr[i].size()); desc += strf("S$[%d]=%s ", i, show8(v.arr[i]).c_str()); }
	MStr before = mstr("before"); sh_set_str("R$", before.data(), 6); sh_set_num("R", 7 * 4096);
	desc = show(src) + desc; c.describe(desc); note_text(desc);
	int want = 0; MStr ws; fx wn = 0;
	try { if (str) ws = evs(*e, v); else wn = evn(*e, v); } catch (Err& x){ want = x.code; }
	int err = sh_run(src.data(), src.size(), 0);
	if (want == VAL_UNSPEC){ c.label("VAL of an unrepresentable number (unspecified)"); return; }
	std::set<std::string> cl; int nodes = 0; classes(*e, cl, nodes); for (auto& s : cl) c.label(s);
	c.label(want ? "result: error " + err_name(want) : str ? "result: text" : "result: number");
	c.nontrivial(nodes >= 2);
	if (err != want) c.fail("error %s, expected %s", err_name(err).c_str(), err_name(want).c_str());
	fx done = get_num("DONE"); if (done != (want ? 0 : 4096)) c.fail(want ? "execution continued after the error" : "execution did not continue");
	if (want){ ws = tgt == 0 ? before : tgt == 1 ? v.sv[0] : tgt == 2 ? v.sv[1] : v.arr[0]; wn = 7 * 4096; }
	if (str){
		uint16_t b[512]; int n = tgt == 3 ? sh_astr("S$", 0, -1, b) : sh_str(tn[tgt], b); WStr r(b, n < 0 ? 0 : n);
		if (r != gwiden(ws)) c.fail("text is %s, expected %s%s", showw(r).c_str(), show8(ws).c_str(), want ? " (unchanged)" : "");
	} else { fx r = get_num("R"); if (r != wn) c.fail("number is %s, expected %s%s", fxs(r).c_str(), fxs(wn).c_str(), want ? " (unchanged)" : ""); }
	// operands keep their text
	for (int i = 0; i < 3; ++i) if (!(str && tgt == i + 1)) if (get_str(svars[i]) != gwiden(v.sv[i])) c.fail("operand %s changed to %s", svars[i], showw(get_str(svars[i])).c_str());
	for (int i = str && tgt == 3 ? 1 : 0; i < 2; ++i){ uint16_t b[512]; int n = sh_astr("S$", i, -1, b); if (WStr(b, n < 0 ? 0 : n) != gwiden(v.arr[i])) c.fail("operand S$[%d] changed", i); }
}
}
const Prop the_prop = {"P02", run_case, 400000, 12000000,
	"One case = one random typed expression tree (depth up to 4) over string variables, array elements, literals, temporaries and numbers, using all string operators and functions; strings have boundary-weighted lengths 0..256 over all 256 character codes, numeric arguments include negative, fractional and huge values. Compared with a sequence-of-characters model: text/number, error code, untouched target on error, unchanged operands. Non-trivial: at least one operator or function and accepted by the line limit. Distinct by program text and operand values.", nullptr};

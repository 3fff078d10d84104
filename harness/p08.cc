// P08: DATA is read in program order with correct values.
#include "model.h"
namespace {
struct Item { std::string raw; MStr text; bool isnum; int err; fx val; };
fx numval(const std::string& s, int& err){ // decimal text -> 20.12, towards zero
	size_t i = 0; bool neg = false; if (s[0] == '-'){ neg = true; ++i; } __int128 ip = 0; for (; i < s.size() && isdigit(s[i]); ++i) if (ip < (1LL << 40)) ip = ip * 10 + (s[i] - '0');
	__int128 fr = 0, m = 1; if (i < s.size() && s[i] == '.') for (++i; i < s.size(); ++i){ fr = fr * 10 + (s[i] - '0'); m *= 10; }
	__int128 v = ip * 4096 + 4096 * fr / m; if (neg) v = -v; err = v > INT32_MAX || v < INT32_MIN ? ERR_OVERFLOW : 0; return (fx)v;
}
bool long_items; // some texts reach the largest length of an item
Item gen_item(G& g){
	Item it; it.err = 0; it.val = 0; it.isnum = false; std::string s;
	switch (g.weighted({16, 10, 8, 2, 1})){
		case 0: { // number
			if (g.chance(1, 3)) s += '-';
			switch (g.below(6)){
				case 0: s += std::to_string(g.range(0, 99)); break;
				case 1: s += std::to_string(g.range(0, 524287)); break;
				case 2: s += std::to_string(g.range(0, 999)) + "." + std::to_string(g.range(0, 9999)); break;
				case 3: s += "." + std::to_string(g.range(0, 999)); break;
				case 4: s += strf("%0*d", g.range(1, 8), g.range(0, 4096)); if (g.chance(1, 2)) s += "."; break;
				default: s += g.pick({"524287.9997", "524288", "524287.99999", "0.000244140625", "0.00024", "524289", "600000", "1048576", "4294967296", "99999999999", "0", "0.5", "1.99999999", "0.0", "524288.0001"});
			}
			it.isnum = true; it.raw = s; it.text = mstr(s); it.val = numval(s, it.err);
			if (g.chance(1, 5)){ std::string sp(g.weighted({4, 1, 1, 1}), ' '); it.raw = "\"" + sp + s + "\""; it.text = mstr(sp + s); }
			break; }
		case 1: { int n = long_items && g.chance(1, 4) ? g.pick({126, 127, 128, 129, 253, 254, (int)g.range(60, 254)}) : g.range(1, 12); for (int i = 0; i < n; ++i) s += i ? "ABCXYZabc019_.@#$-+*"[g.below(20)] : "ABCXYZabc_@#$+*"[g.below(15)]; it.raw = s; it.text = mstr(s); it.err = ERR_READ_FAILURE; break; }
		case 2: { int n = long_items && g.chance(1, 4) ? g.pick({126, 127, 128, 253, (int)g.range(60, 253)}) : g.range(0, 20); MStr t; for (int i = 0; i < n; ++i){ int ch = g.chance(1, 5) ? g.range(14, 255) : " ,:'ABz09@.-"[g.below(12)]; if (ch == '"' || ch == '\r') ch = 'Q'; t += (uint8_t)ch; }
			bool digits = true; for (uint8_t ch : t) digits &= isdigit(ch) || ch == '.' || ch == '-' || ch == ' '; if (digits) t += 'K';
			it.text = t; it.raw = "\"" + std::string(t.begin(), t.end()) + "\""; it.err = ERR_READ_FAILURE; break; }
		case 4: { // looks like a number, but is none
			s = std::to_string(g.range(0, 30)); if (g.chance(1, 4)) s = "-" + s; if (g.chance(1, 3)) s += "." + std::to_string(g.range(0, 9));
			switch (g.below(5)){ case 0: s += strf("-%d", g.range(0, 12)); break; case 1: s += (s.find('.') == std::string::npos ? ".0." : ".") + std::to_string(g.range(0, 9)); break; case 2: s = "-" + (s[0] == '-' ? s : "-" + s); break; case 3: s = "2026-11-" + s; break; default: s += "-"; }
			it.raw = s; it.text = mstr(s); it.err = ERR_READ_FAILURE; if (g.chance(1, 4)) it.raw = "\"" + s + "\""; break; }
		default: it.raw = ""; it.isnum = true; break; // empty: "" or 0
	}
	return it;
}
void run_case(G& g, Case& c){
	std::vector<Item> items; std::map<int,int> labels; std::string P; int nl = g.range(1, 5), placed = 0; bool huge = g.chance(1, 8);
	struct Rd { int k; int form; }; struct St { int kind; std::vector<Rd> rd; int lab; }; std::vector<St> st; // 0 READ 1 RESTORE
	bool blank_end = false; int open_quotes = 0, decoys = 0;
	auto data_line = [&](std::string pre){
		std::string l = pre + "DATA"; bool first = true; std::vector<Item> add; bool sp0 = g.chance(3, 4); size_t limit = 99; long_items = false; if (g.chance(1, 12)){ long_items = g.chance(1, 2); limit = g.pick({200, 300, 700, 1500}); c.label("DATA lines longer than 127 characters"); } if (sp0) l += ' ';
		for (int i = 0; g.item(i, 1, limit > 99 ? 300 : 40, huge || limit > 99 ? 19 : 3, huge || limit > 99 ? 20 : 4); ++i){
			Item it = gen_item(g); if (!sp0 && !i && (it.raw.empty() || isalnum(it.raw[0]) || it.raw[0] == '_' || it.raw[0] == '$')) it.raw = "\"" + it.raw + "\"";
			std::string a = std::string(g.weighted({6, 2, 1}), ' '), b = std::string(g.weighted({6, 2, 1}), ' '); std::string t = (first ? "" : ",") + a + it.raw + b;
			if (l.size() + t.size() > limit && !(limit > 99 && add.empty())) break;
			l += t; add.push_back(it); first = false;
		}
		if (add.empty()) return;
		if (add.back().raw.size() > 1 && add.back().raw[0] == '"' && g.chance(1, 3)){ while (l.back() == ' ') l.pop_back(); l.pop_back(); ++open_quotes; } // the end of the line closes the text
		items.insert(items.end(), add.begin(), add.end()); P += l + "\r";
	};
	auto filler = [&](){
		switch (g.weighted({8, 6, 2, 2, 2, 2, 1})){
			case 6: { // other code whose bytes look like instructions
				if (++decoys > 6) break; static const char b[] = "dSDVNLlaCcIE"; std::string n; fx v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | (uint8_t)(g.chance(1, 4) ? g.below(128) : b[g.below(12)]); for (int i = g.range(1, 8); i > 0; --i) n += "SDVNCB"[g.below(6)]; n += (char)('0' + decoys);
				switch (g.below(4)){ case 0: P += "Z=" + num_lit(v); break; case 1: P += strf("DIM %s[%d]", n.c_str(), g.range(1, 9)); break; case 2: P += strf("DIM %s$[%d]", n.c_str(), g.range(1, 9)); break; default: P += strf("Z=%s[%d]+", n.c_str(), g.range(0, 9)) + num_lit(v & 0x3fffffff); } P += "\r"; c.label("code that looks like other code"); break; }
			case 0: data_line(g.chance(1, 4) ? " " : ""); break;
			case 1: if (placed < nl){ labels[placed] = (int)items.size(); std::string l = strf("@D%d", placed++); if (g.chance(1, 3)) data_line(l + ":"); else P += l + "\r"; } break;
			case 2: data_line("Z=Z+1:"); break;
			case 3: data_line(g.pick({"IF 0 THEN Z=1:", "IF 0 THEN Z=1:", "IF 0 THEN CLS:", "IF Z<0 THEN STOP:", "IF 1 THEN CLS:", "IF 0 THEN ", "IF 1 THEN "})); break;
			case 4: P += g.pick({"'DATA 1,2\r", "REM DATA 5\r", "Z$=\"DATA 7\"\r", "\r", "Z=5:'DATA 9\r"}); break;
			default: data_line("IF 0 THEN Z=1 ELSE "); break;
		}
	};
	P = ""; if (g.chance(1, 4)) data_line(""); /* DATA as the very first instruction */ P += "DIM N[64],S$[64]\r"; int k = 0; bool clean = true;
	for (int i = 0; g.item(i, 1, 25, 14, 15); ++i){
		if (g.chance(1, 3)) filler();
		if (g.chance(1, 5)){ // RESTORE
			St s; s.kind = 1; s.lab = g.chance(1, 25) ? -1 : g.below(nl); st.push_back(s); std::string L = s.lab < 0 ? "@NONE" : strf("@D%d", s.lab);
			switch (g.below(6)){ case 0: P += "RESTORE " + L; break; case 1: P += "RESTORE \"" + L + "\""; break; case 2: P += "Q$=\"" + L + "\":RESTORE Q$"; break; case 3: P += "IF 1 THEN RESTORE " + L; break; case 4: P += "IF 0 THEN Z=1 ELSE RESTORE " + L; break; default: P += "RESTORE \"@\"+\"" + L.substr(1) + "\""; }
			P += "\r"; c.label("texts closed by the end of the line", open_quotes); c.label("RESTORE");
		} else if (k < 60 && g.chance(1, 8)){ // loop
			int n = g.range(1, 4); if (k + n > 60) continue; St s; s.kind = 0;
			for (int j = 0; j < n; ++j){ s.rd = {{k + j, j ? 3 : 2}}; st.push_back(s); }
			P += strf("FOR I=%d TO %d:READ \1%c\2:NEXT\r", k, k + n - 1, 'A' + k); k += n; c.label("READ in a loop");
		} else {
			St s; s.kind = 0; std::string l = "READ ";
			for (int j = 0; g.item(j, 1, 6, 1, 2); ++j){ if (k >= 60) break; if (j) l += ","; l += strf("\1%c\2", 'A' + k); s.rd.push_back({k, (int)g.below(2)}); ++k; }
			if (s.rd.empty()) continue; st.push_back(s); if (l.size() > 99) return; P += (g.chance(1, 8) ? "IF 1 THEN " : "") + l + "\r";
		}
	}
	P += g.chance(1, 2) ? "END\r" : "GOTO @FIN\r";
	for (int i = 0; g.item(i, 1, 8, 4, 5); ++i) filler();
	while (placed < nl){ labels[placed] = (int)items.size(); P += strf("@D%d\r", placed++); if (g.chance(1, 2)) data_line(""); }
	P += "@FIN\r"; if (g.chance(1, 4)){ data_line(""); if (P.back() == '\r' && g.chance(1, 2)){ P.pop_back(); blank_end = true; } }
	if (blank_end && P.substr(P.rfind('\r') + 1) == "@FIN") P += '\r';
	// types are adapted to the items, mostly, so that reading goes on
	size_t cur = 0; int err = 0; std::map<std::string, std::pair<bool, std::pair<fx, MStr>>> want; size_t reads = 0, restores = 0;
	std::string name[64]; int type[64]; for (int& t : type) t = -1;
	auto fix = [&](const Rd& r, bool str){ type[r.k] = str; name[r.k] = r.form >= 2 || r.form == 0 ? strf(str ? "S$[%d]" : "N[%d]", r.k) : strf(str ? "V%d$" : "V%d", r.k); want[name[r.k]] = {str, {0, MStr()}}; };
	for (auto& s : st){
		if (s.kind == 1){ if (!err){ if (s.lab < 0) err = ERR_LABEL_NOT_FOUND; else { cur = labels[s.lab]; ++restores; } } continue; }
		for (auto& r : s.rd){
			if (r.form == 3) fix(r, type[r.k - 1]); else if (!err && cur < items.size()) fix(r, g.chance(1, 30) ? g.chance(1, 2) : items[cur].isnum && !items[cur].err ? g.chance(2, 3) == 0 : g.chance(1, 20) == 0); else fix(r, g.chance(1, 2));
			if (err) continue;
			if (cur >= items.size()){ err = ERR_OUT_OF_DATA; continue; }
			const Item& it = items[cur]; auto& w = want[name[r.k]].second;
			if (type[r.k]) w.second = it.text;
			else if (it.isnum && !it.err) w.first = it.raw.empty() ? 0 : it.val;
			else { err = it.isnum ? ERR_OVERFLOW : ERR_READ_FAILURE; continue; }
			++cur; ++reads;
		}
	}
	{ std::string o; for (size_t i = 0; i < P.size(); ++i){ if (P[i] != 1){ o += P[i]; continue; } int q = P[i + 1] - 'A'; bool loop = i >= 5 && P.compare(i + 2, 6, "\2:NEXT") == 0; o += loop ? (type[q] ? "S$[I]" : "N[I]") : name[q]; i += 2; } P = o; }
	int opts = g.below(4); bool twice = g.chance(1, 5);
	int big = g.chance(1, 150) ? g.pick({695, 1400, 2100, 4500}) : 0, big_at = big ? g.below(std::count(P.begin(), P.end(), '\r') + 1) : 0;
	c.text = show(P) + strf("opts=%d%s", opts, twice ? " run twice" : "") + (big ? strf(" %d skipped lines put before line %d", big, big_at) : ""); note_text(c.text); if (big){ P = blow_up(P, big_at, big); c.label("code of more than 65536 bytes"); }
	sh_new(128, 512, 512); int e = run_prog(P, opts); if (twice){ e = run_prog("CLEAR\r", 0); e = run_prog(P, opts); c.label("run twice"); }
	c.label(err ? "ends with " + err_name(err) : "runs to the end"); c.label("items read", reads); if (reads > 20) c.label("more than 20 items read"); c.nontrivial(reads >= 3);
	for (auto& i : items) if (i.raw.empty()){ c.label("empty item in DATA"); break; }
	if (e != err) c.fail("ends with %s, expected %s after %zu items", err_name(e).c_str(), err_name(err).c_str(), reads);
	for (auto& w : want){
		if (w.second.first){ WStr got; int x; uint16_t b[512]; if (sscanf(w.first.c_str(), "S$[%d]", &x) == 1){ int n = sh_astr("S$", x, -1, b); got.assign(b, b + std::max(n, 0)); } else got = get_str(w.first);
			if (got != gwiden(w.second.second.second)) c.fail("%s is %s, expected %s", w.first.c_str(), showw(got).c_str(), show8(w.second.second.second).c_str()); }
		else { fx got; int x; if (sscanf(w.first.c_str(), "N[%d]", &x) == 1) sh_anum("N", x, -1, &got); else got = get_num(w.first);
			if (got != w.second.second.first) c.fail("%s is %s, expected %s", w.first.c_str(), fxs(got).c_str(), fxs(w.second.second.first).c_str()); }
	}
}
}
const Prop the_prop = {"P08", run_case, 150000, 5000000,
	"One case = one program with DATA statements (1-300 items, also in lines of more than 255 characters: numbers of every written form, quoted and unquoted text, empty items, blanks; alone, behind labels, other statements or inside IF lines), READ statements into scalars and array elements, loops and RESTORE in all forms. Every destination and the error code are compared with a list model. Non-trivial: at least 3 items read.", nullptr};

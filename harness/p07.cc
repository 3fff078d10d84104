// P07: labels resolve to exactly the line that declares them.
#include "model.h"
extern "C" int sh_run_sized(const char* src, int len, int opts);
namespace {
const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789abcdefghijklmnopqrstuvwxyz";
std::string gname(G& g, const std::vector<std::string>& have, int style){
	std::string s; int al = style == 1 ? 2 : style == 2 ? 63 : 37;
	if (style >= 3 && !have.empty() && g.chance(3, 4)){ // derived from another name
		s = have[g.below((u32_)have.size())];
		switch (g.below(6)){
			case 0: if (s.size() < 16) s += AL[g.below(al)]; break;
			case 1: if (s.size() > 1) s.pop_back(); break;
			case 2: s[g.below((u32_)s.size())] = AL[g.below(al)]; break;
			case 3: if (s.size() > 2){ int i = g.below((u32_)s.size() - 1); std::swap(s[i], s[i + 1]); } break;
			case 4: if (s.size() > 2){ int i = 1 + g.below((u32_)s.size() - 2); if (i == 1 && isalpha(s[1]) && s[1] < 'X'){ s[1] += 2; if (isalpha(s[2]) && s[2] != 'A' && s[2] != 'a') s[2] -= 1; } else std::swap(s[0], s[i]); } break; // names of equal weighted sums
			default: while (s.size() < 16) s += s[s.size() / 2]; break;
		}
		return s;
	}
	int n = style == 5 ? 16 : g.chance(1, 6) ? 16 : g.chance(1, 8) ? 15 : g.range(1, style == 1 ? 12 : 8);
	for (int i = 0; i < n; ++i) s += AL[g.below(al)];
	return s;
}
void run_case(G& g, Case& c){
	int n; switch (g.weighted({10, 10, 6, 3, 1})){ case 0: n = g.range(1, 8); break; case 1: n = g.range(9, 64); break; case 2: n = g.range(65, 400); break; case 3: n = g.range(401, 2048); break; default: n = g.range(2040, 2060); }
	int style = g.below(6);
	std::vector<std::string> names; std::set<std::string> set;
	if (n > 64){ // many names: taken from one random seed (kept out of the shrinking)
		u64_ s = g.bits(); auto rnd = [&](u32_ m){ s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32_)((s >> 33) % m); };
		while ((int)names.size() < n){
			std::string x; int k = style == 0 ? 0 : style == 1 ? 1 : rnd(3);
			if (k == 0) x = "L" + std::to_string(names.size() * (style + 1)); else if (k == 1){ int l = 11 + rnd(6); for (int i = 0; i < l; ++i) x += "AB"[rnd(2)]; } else { int l = 2 + rnd(15); for (int i = 0; i < l; ++i) x += AL[rnd(63)]; }
			if (set.insert(x).second) names.push_back(x);
		}
	} else for (int t = 0; (int)names.size() < n && t < 400; ++t){ std::string x = gname(g, names, style); if (set.insert(x).second) names.push_back(x); }
	n = (int)names.size();
	struct Ref { int helper; std::string name; int id, e; }; std::vector<Ref> refl; // id >= 0: declared label; -1 missing
	std::map<std::string,int> decl; for (int i = 0; i < n; ++i) decl[names[i]] = i;
	std::string P, tail; int H = 0, expect = 0, refs = 0; bool stop = false; std::string last;
	int helpers = 0;
	bool strict = g.chance(1, 4); bool dup = g.chance(1, 10), many = false; int opts = g.below(4) | (strict ? 4 : 0);
	auto line = [&](const std::string& s){ P += s; P += '\r'; };
	line(g.chance(1, 2) ? "H=0" : " H=0");
	auto rec = [&](int id){ H = (H * 31 + id + 1) % 9973; };
	bool toolong = false;
	for (int i = 0; g.item(i, 1, 30, 9, 10); ++i){
		std::string x; int id;
		if (i && g.chance(1, 40)){ // not declared
			x = names[g.below(n)]; switch (g.below(5)){ case 0: x += "Z"; break; case 1: if (x.size() > 1) x.pop_back(); else x = "QQ"; break; case 2: x[g.below((u32_)x.size())] ^= 0x20; break; case 3: x = "NOTHERE"; break; default: x += std::string(17 - std::min<size_t>(16, x.size()), 'A'); }
			for (char& ch : x) if (!isalnum(ch) && ch != '_') ch = 'Q';
			if (x.size() > 17) x.resize(17);
		} else x = names[g.below(n)];
		auto it = decl.find(x); id = it == decl.end() ? -1 : it->second;
		int kind = g.below(9); bool lng = x.size() > 16; if (lng && kind >= 4 && kind <= 6) continue;
		std::string at = "@" + x, q = "\"@" + x + "\"", cnt = "H=(H*31+V+1)%9973";
		if (i && (kind == 1 || kind == 2 || kind == 8) && g.chance(1, 30)){ q = std::string("\"") + g.pick({"", "A", " ", "@@", "0"}) + x + "\""; x = "@" + x; id = -1; } // not the text of a label
		bool lit = true; int e = ERR_LABEL_NOT_FOUND; std::string s, post = cnt;
		switch (kind){
			case 0: s = "GOSUB " + at; break;
			case 1: s = "GOSUB " + q; lit = false; break;
			case 2: s = "A$=" + q + ":GOSUB A$"; lit = false; break;
			case 3: { int k = g.below(3); s = strf("ON %d GOSUB ", k); for (int j = 0; j < 3; ++j){ if (j) s += ","; std::string o = names[g.below(n)]; s += j == k ? at : "@" + o; } break; }
			case 4: { s = strf("GOSUB @%%%d", helpers); tail += strf("@%%%d\rGOTO ", helpers++) + (g.chance(1, 2) ? (lit = false, q) : at) + "\r"; break; }
			case 5: { s = strf("GOSUB @%%%d", helpers); tail += strf("@%%%d:IF 1 THEN ", helpers++) + at + "\r"; break; }
			case 6: { s = strf("GOSUB @%%%d", helpers); tail += strf("@%%%d:IF 0 THEN A=1 ELSE ", helpers++) + at + "\r"; break; }
			case 7: s = "RESTORE " + at + ":READ V"; break;
			default: s = "A$=" + q + ":RESTORE A$:READ V"; lit = false;
		}
		if (kind == 2 && x[0] != '@' && g.chance(1, 2)) s = "A$=\"@\"+\"" + x + "\":GOSUB A$";
		if (lng && lit) e = ERR_LABEL_TOO_LONG, toolong = true;
		if (kind == 3 && g.chance(1, 6)){ s += strf(",@%s", x.c_str()); }
		if (s.size() > 99) continue;
		line(s); line(post); ++refs; c.label(strf("reference kind %d", kind)); last = s;
		refl.push_back({kind >= 4 && kind <= 6 ? helpers - 1 : -1, x, id, e});
		if (id < 0) c.label(lng ? "name longer than 16" : "missing label");
	}
	bool dup_run = dup && !strict && g.chance(1, 2); // the duplicate's line is reached
	line(dup_run ? "GOTO @DUP__END" : "END"); if (dup_run && !set.insert("DUP__END").second) return;
	// helper names are replaced by ones that are not declared
	std::vector<std::string> hn; for (int i = 0; i < helpers; ++i){ std::string h; int k = 0; do h = strf("H%d_%d", i, k++); while (set.count(h)); set.insert(h); hn.push_back(h); }
	auto subst = [&](std::string& t){ std::string o; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '%' && i && t[i - 1] == '@'){ int v = atoi(t.c_str() + i + 1); o += hn[v]; while (i + 1 < t.size() && isdigit(t[i + 1])) ++i; } else o += t[i]; t = o; };
	subst(P); subst(tail);
	std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i;
	if (n <= 64) for (int i = n - 1; i > 0; --i) std::swap(order[i], order[g.below(i + 1)]);
	bool before = g.chance(1, 2); if (before) P += tail;
	int dupat = dup ? (int)g.below(n) : -1;
	for (int i : order){
		const std::string& x = names[i]; int f = n <= 64 ? g.below(5) : (i + n) % 5; std::string b = strf("V=%d", i);
		switch (f){
			case 0: line("@" + x); line(b); line(strf("DATA %d", i)); line("RETURN"); break;
			case 1: line("@" + x + ":" + b + ":RETURN"); line(strf("DATA %d,7", i)); break;
			case 2: line(" @" + x); line(strf("DATA %d", i)); line(b + ":RETURN"); break;
			case 3: line("@" + x + " :" + b); line(":RETURN"); line(strf(" DATA %d", i)); break;
			default: line("@" + x + ":DATA " + std::to_string(i)); line(b); line("RETURN '@" + x); break;
		}
	}
	if (!before) P += tail;
	if (dup_run) P += "@DUP__END\r@" + names[dupat] + "\rV=4000\rRETURN\r";
	else if (dup) P += "@" + names[dupat] + "\rV=4000\rRETURN\r";
	int total = n + helpers + dup_run; many = total > 2048;
	c.text = strf("%d labels, %d references, opts=%d%s\n", n, refs, opts, dup ? " duplicate" : "") + show(P.size() < 6000 ? P : P.substr(0, 6000)); note_text(c.text);
	// labels beyond the limit are not there (without strict, their line reports it when it is reached)
	std::set<std::string> table; for (size_t i = 0; i < P.size(); i = P.find('\r', i) + 1){ size_t k = i; while (P[k] == ' ') ++k; if (P[k] != '@') continue; std::string x; while (isalnum(P[++k]) || P[k] == '_') x += P[k]; if (table.size() < 2048) table.insert(x); }
	for (auto& r : refl){ if (r.helper >= 0 && !table.count(hn[r.helper])){ expect = ERR_LABEL_NOT_FOUND; stop = true; break; } if (r.id < 0 || !table.count(r.name)){ expect = r.e; stop = true; break; } rec(r.id); }
	if (!stop && dup_run) expect = table.count("DUP__END") ? ERR_LABEL_ADD_FAILURE : ERR_LABEL_NOT_FOUND;
	sh_new(64, 64, 64);
	if (g.chance(1, 4)){ // another program with its own labels was there before
		u64_ s = g.bits(); auto rnd = [&](u32_ m){ s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32_)((s >> 33) % m); };
		int m = g.pick({3, 40, 300, 1900}), fixed = g.chance(1, 2); std::string Q = "END\r"; for (int i = 0; i < m; ++i){ std::string x; int l = fixed ? 16 : 1 + rnd(16); for (int k = 0; k < l; ++k) x += AL[rnd(37)]; Q += "@" + x + "\rQ=1\r"; }
		run_prog(Q, opts & 2); c.label("after another program");
	}
	bool sized = !many && g.chance(1, 3);
	int err = sized ? sh_run_sized(P.data(), (int)P.size(), opts) : run_prog(P, opts);
	c.label(n > 64 ? n > 400 ? "over 400 labels" : "65-400 labels" : "up to 64 labels"); c.label(strf("options %d", opts)); if (sized) c.label("tables sized for the program");
	c.nontrivial(refs >= 2 && n >= 2);
	if (strict && (dup || many || toolong)){ c.label(dup ? "duplicate, strict" : "too many or too long, strict");
		bool ok = (dup || many) && err == ERR_LABEL_ADD_FAILURE || toolong && err == ERR_LABEL_TOO_LONG;
		if (!ok) c.fail("compiles with %s", err_name(err).c_str());
		return; }
	if (dup) c.label(dup_run ? "duplicate reached" : "duplicate declared later");
	if (many) c.label("over the limit, not strict");
	if (err != expect) c.fail("ends with %s, expected %s", err_name(err).c_str(), err_name(expect).c_str());
	fx h = get_num("H"); if (h != H << 12) c.fail("the statements reached give %s, expected %d", fxs(h).c_str(), H);
}
}
const Prop the_prop = {"P07", run_case, 60000, 3000000,
	"One case = one program declaring 1 to 2060 labels (random, colliding, prefix-related and case-related names of 1-16 characters, in any order and layout) and up to 30 references (GOTO, GOSUB, ON, THEN, ELSE, RESTORE; literal and string-valued; some of undeclared or over-long names), compiled with random options, the default or the computed table sizes. The numbers recorded by the reached lines and the error are compared with a name-to-line table. Non-trivial: at least 2 labels and 2 references.", nullptr};

// Property-based testing engine: tape-driven generation, forked execution,
// shrinking, replay, and evidence.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>
#include <initializer_list>

typedef uint8_t  u8_;
typedef uint16_t u16_;
typedef uint32_t u32_;
typedef uint64_t u64_;

struct Failure { std::string msg; };

std::string strf(const char* fmt, ...) __attribute__((format(printf,1,2)));

// The source of every random choice of a case.  A case is the sequence of
// bounded choices ("tape"); 0 is always the simplest choice.
struct G {
	u64_ s;                        // rng state
	const std::vector<u32_>* rep;  // replayed tape, or null
	size_t pos;
	u32_* rec; u32_ rec_max; u32_* rec_n; // recording area (survives crashes)
	u32_* mk; u32_ mk_max; u32_* mk_n;      // positions where list items start (for shrinking)
	// list of items: for (int i = 0; g.item(i, min, max, num, den); ++i)
	// goes on with probability num/den after the first min items
	bool item(int i, int min, int max, u32_ num, u32_ den){ if (*mk_n < mk_max) mk[(*mk_n)++] = *rec_n; return i < min || (i < max && chance(num, den)); }
	u32_ raw();                    // 32 random bits (not recorded)
	u32_ below(u32_ n);            // [0,n)
	int range(int lo, int hi){ return lo + (int)below((u32_)(hi - lo) + 1); }
	bool chance(u32_ num, u32_ den){ return below(den) >= den - num; } // 0 = false
	u32_ bits(){ return below(0); } // full 32 bits
	template<class T> const T& pick(const std::vector<T>& v){ return v[below((u32_)v.size())]; }
	const char* pick(std::initializer_list<const char*> l){ return *(l.begin() + below((u32_)l.size())); }
	int pick(std::initializer_list<int> l){ return *(l.begin() + below((u32_)l.size())); }
	// index by integer weights
	int weighted(std::initializer_list<int> w);
};

// What a case reports about itself.
struct Case {
	std::map<std::string,u64_>* counts;
	bool nontriv = false;
	std::string text;             // canonical description of the case
	void label(const std::string& l, u64_ n = 1){ if (counts) (*counts)[l] += n; }
	void nontrivial(bool b = true){ nontriv = nontriv || b; }
	void describe(const std::string& t){ text += t; }
	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf,2,3)));
};

struct Prop {
	const char* id;
	void (*run)(G&, Case&);
	u64_ quick, thorough;   // number of cases
	const char* rule;
	const char* (*fixed)(unsigned i); // optional (unused slots return null)
};
extern const Prop the_prop;  // defined by each property file
// optional: explicit tapes run first (regressions); weak default returns none
std::vector<std::vector<u32_>> regression_tapes();
// called once in every process that runs cases
void prop_process_init();
// text of known findings still reproduced; printed as KNOWN-FINDING lines
std::vector<std::string> prop_known_findings();

// Helpers shared by the property files: running programs, model strings,
// generators of numbers, names and text.
#pragma once
#include "engine.h"
#include "shim.h"
#include "error.h"
extern "C" { int sh_set_num(const char* name, int32_t v); void sh_redzones(bool on); int sh_clear_error(void); }
void note_text(const std::string& t);

typedef int32_t fx;
typedef std::basic_string<uint8_t> MStr;        // model string: 8-bit character codes
typedef std::basic_string<uint16_t> WStr;

// A program under construction: lines end with \r
struct Prog {
	std::string s;
	void line(const std::string& l){ s += l; s += '\r'; }
};
std::string show(const std::string& prog);      // printable form
std::string show8(const MStr& s);
std::string showw(const WStr& s);
WStr widen(const MStr& s);                      // via the interpreter's table (checked by P10)
int run_prog(const std::string& src, int opts = 0);
// the same program with n skipped lines of text put before the given line: its code becomes longer than 65536 bytes
std::string blow_up(const std::string& src, int line, int n);
WStr get_str(const std::string& name);          // wide text of a string variable; fails as "\xffff" if missing
fx get_num(const std::string& name);
std::string err_name(int e);
std::string fxs(fx v);                          // debugging form
// literal text for the number v if exactly representable with digits (at most 5 decimals), else through arithmetic
std::string num_lit(fx v);
fx gen_fx(G& g);                                // number with boundary emphasis
fx gen_int_fx(G& g, int lo, int hi);            // integer-valued
std::string spaces(G& g);
std::string rcase(G& g, const std::string& kw); // random letter case
bool runs_alone(char c);
// ---- reference text functions (independent of the interpreter)
extern const uint16_t golden_wide[256];         // character codes -> display form
WStr gwiden(const MStr& s);
MStr mstr(const std::string& s);
MStr model_str(fx v);                           // STR$/PRINT text of a number
enum { VAL_OK = 0, VAL_UNSPEC = -1 };
int model_val(const MStr& s, fx& out);          // VAL_OK, VAL_UNSPEC or an error code
int cmp_wide(const MStr& a, const MStr& b);     // -1 0 1
size_t line_weight(const std::string& l); // at least the number of tokens: the characters, a quoted text counts as one
MStr gen_mstr(G& g, int maxlen = 256);          // boundary-weighted length and contents

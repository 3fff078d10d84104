"""Planted bugs (see mkseeds.py). Paths are below /repo."""
SEEDS = []
def seed(**k): SEEDS.append(k)
I = "source/interpreter/"; S = "source/subsystem/"; X = "source/extension/"

seed(id="P01-mul-trunc", property="P01",
 edits=[(I+"operators.c", "dfixp z = (dfixp)x * y >> FIXPOINT;", "dfixp z = (dfixp)x * y / (1 << FIXPOINT);")],
 needs="a product of numbers with different signs that is not a multiple of 1/4096",
 breaks="multiplication truncates toward zero instead of rounding down",
 prog="A=1/4096\nPRINT FLOOR(-A*0.5*4096)\nPRINT FLOOR(A*0.5*4096)\nB=-3*A*1.5\nPRINT FLOOR(B*4096)\n")

seed(id="P02-instr-restart", property="P02",
 edits=[(I+"strfuncs.c", "			i -= j; // go back by number of matched chars\n", "			i -= j - (j > 2); // go back by number of matched chars\n")],
 needs="a failed partial match of more than two characters whose text overlaps the start of the real match",
 breaks="INSTR misses an occurrence after a partial match",
 prog='PRINT INSTR("AAB","AB"),INSTR("XAAAAB","AAAB")\n')

seed(id="P02-chr-256", property="P02",
 edits=[(I+"strfuncs.c", "	if (c < 0 || c > 255){", "	if (c < 0 || c > 256){")],
 needs="CHR$ of exactly 256", breaks="CHR$(256) gives an empty string instead of the range error",
 prog='PRINT LEN(CHR$(255))\nPRINT LEN(CHR$(256))\n')

seed(id="P04-probe", property="P04",
 edits=[(I+"strs.c", "	if (len == 16)\n		return true;\n	else {\n		return b[len] == '\\0';\n	}", "	if (len >= 8)\n		return true;\n	else {\n		return b[len] == '\\0';\n	}")],
 needs="two names that share their first 8 or more characters and meet in the same place of the table",
 breaks="a variable whose long name is the start of another one's is confused with it",
 prog="ABCDEFGHB=3:ABCDEFGHD=4\nABCDEFGH=1\nPRINT ABCDEFGH;ABCDEFGHB;ABCDEFGHD\n", opts="-v 16,128,2048")

seed(id="P05-step-zero", property="P05",
 edits=[(I+"flow.c", "	if ((step < 0 && end > val) || (step >= 0 && end < val)){\n		// loop ends", "	if ((step < 0 && end > val) || (step > 0 && end < val)){\n		// loop ends")],
 needs="a FOR with step 0 whose end value passes below the variable while the loop runs",
 breaks="such a loop never ends",
 prog="E=3:N=0\nFOR I=1 TO E STEP 0\nN=N+1\nE=E-1\nIF N>20 GOTO @X\nNEXT\n@X\nPRINT N\n")

seed(id="P07-label-tail", property="P07",
 edits=[(I+"label.c", "	if (i < MAX_LABEL_SIZE)\n		l->entry[entry_index].name[i] = '\\0';\n", "	if (i + 1 < MAX_LABEL_SIZE)\n		l->entry[entry_index].name[i] = '\\0';\n")],
 needs="a second program compiled with the same label table, where a label of 15 characters takes the place of one of 16",
 breaks="a label keeps the end of an older program's label",
 prog=["GOTO @LONG_LABEL_NAME1\nPRINT 1\n@LONG_LABEL_NAME1\nPRINT 2\n", "GOSUB @ANOTHERZVSOISLR\nPRINT 3\nEND\n@ANOTHERZVSOISLR\nPRINT 4\nRETURN\n"])

seed(id="P08-spaces", property="P08",
 edits=[(I+"data.c", "		while (i < len && src[i] == ' '){\n			i++;\n		}", "		if (i < len && src[i] == ' '){\n			i++;\n		}")],
 needs="a quoted DATA item with two or more spaces before a number, read into a number",
 breaks="such an item can not be read", prog='READ A,B,C\nPRINT A;B;C\nDATA 1,\" 2\",\"  3\"\n'.replace('\\"','"'))

seed(id="P12-bgcopy-dir", property="P12",
 edits=[(S+"background.c", "if (y3 < y1 || (y3 == y1 && x3 < x1)){", "if (y3 < y1){")],
 needs="BGCOPY within the same rows to a place further left that overlaps the copied area",
 breaks="tiles copied to the left over themselves repeat the last ones",
 prog='FOR I=0 TO 9:BGPUT 0,I+4,3,I+1:NEXT\nBGCOPY 0,4,3,13,3,2,3\nFOR I=0 TO 13:BGREAD(0,I,3),T:PRINT T;" ";:NEXT\n')

seed(id="P12-ofs-cancel", property="P12",
 edits=[(S+"background.c", "		b->x = x;\n		b->y = y;\n		b->time = 0;\n	} else {", "		b->x = x;\n		b->y = y;\n	} else {")],
 needs="BGOFS without a time while a timed scroll of the same layer is running",
 breaks="the old scroll goes on and moves the layer away from where it was put",
 prog=['BGOFS 1,64,32,8\n', 'PRINT BGCHK(1)\nBGOFS 1,5,6\nPRINT BGCHK(1)\n', 'PRINT BGCHK(1)\n'], opts="-s 3")

seed(id="P13-spoit-edge", property="P13",
 edits=[(S+"graphics.c", "	STACK_INT_RANGE_SILENT(1,0,GRP_HEIGHT-1,y);\n	\n	u8 color;", "	STACK_INT_RANGE_SILENT(1,0,GRP_HEIGHT-2,y);\n	\n	u8 color;")],
 needs="GPSET in the lowest row of the page", breaks="such a pixel is never drawn",
 prog='GPSET 3,190,5:GPSET 3,191,6\nPRINT GSPOIT(3,190);GSPOIT(3,191)\n')

seed(id="P14-spchk-loop", property="P14",
 edits=[(S+"sprites.c", "	result |= (s->scale.time >= 0) << 2;", "	result |= (s->scale.time > 0) << 2;")],
 needs="SPCHK one frame before a timed SPSCALE reaches its end", breaks="the sprite is reported as no longer being scaled",
 prog=['SPSET 3,0,0,0,0,0\nSPSCALE 3,50,3\n', 'PRINT SPCHK(3)\n', 'PRINT SPCHK(3)\n'], opts="-s 1")

seed(id="P14-spofs-time0", property="P14",
 edits=[(S+"sprites.c", "			s->pos.x = x;\n			s->pos.y = y;\n			s->pos.dx = 0;\n			s->pos.dy = 0;\n			s->pos.time = -1;\n		}", "			s->pos.x = x;\n			s->pos.y = y;\n			s->pos.dx = 0;\n			s->pos.dy = 0;\n		}")],
 needs="SPOFS with time 0 while a timed movement is running",
 breaks="the sprite jumps on to the old target later",
 prog=['SPSET 3,0,0,0,0,0\nSPOFS 3,100,50,6\n', 'SPOFS 3,7,8,0\nPRINT SPCHK(3)\n', 'X=0\n', 'SPREAD(3),X,Y\nPRINT X,Y,SPCHK(3)\n'], opts="-s 3")

seed(id="P15-hit-touch", property="P15",
 edits=[(S+"sprites.c", "			if (min <= d && d <= max) in_range = true;", "			if (min <= d && d < max) in_range = true;")],
 needs="two sprites where the first only touches the right or lower edge of the second",
 breaks="sprites that touch on that side are not hit",
 prog='SPSET 0,0,0,0,0,0:SPSET 1,0,0,0,0,0\nSPOFS 0,16,0:SPOFS 1,0,0\nPRINT SPHITSP(0,1),SPHITSP(1,0)\nSPOFS 0,0,0:SPOFS 1,16,0\nPRINT SPHITSP(0,1),SPHITSP(1,0)\n')

seed(id="P15-mask", property="P15",
 edits=[(S+"sprites.c", "	if (!(a->hit.mask & b->hit.mask)){", "	if (!(a->hit.mask & b->hit.mask) && a->hit.mask && b->hit.mask != 0x80){")],
 needs="sprites of which one has the group mask 0 or 128", breaks="sprites without a common group are hit",
 prog='SPSET 0,0,0,0,0,0:SPSET 1,0,0,0,0,0\nSPCOL 0,0,0,16,16,0,0:PRINT SPHITSP(0,1)\nSPCOL 0,0,0,16,16,0,127:SPCOL 1,0,0,16,16,0,128:PRINT SPHITSP(0,1),SPHITSP(1,0)\n')

seed(id="P18-rsort-len", property="P18",
 edits=[(S+"variables.c", "		if (chr_a == chr_b) continue;\n		return chr_a > chr_b;\n	}\n	return size_a > size_b;", "		if (chr_a == chr_b) continue;\n		return chr_a > chr_b;\n	}\n	return size > 2 && size_a > size_b;")],
 needs="RSORT of strings where one of up to two characters is the start of another one",
 breaks="the longer string does not come first",
 prog='DIM A$(4)\nA$(0)="A":A$(1)="AB":A$(2)="ABC":A$(3)="AA"\nRSORT 0,4,A$\nFOR I=0 TO 3:PRINT A$(I):NEXT\n')

seed(id="P18-extra-limit", property="P18",
 edits=[(S+"variables.c", "	for (int k = 0; k < MAX_SORT_ARRAYS; ++k){\n		if (extra[k]){", "	for (int k = 0; k < MAX_SORT_ARRAYS / 8; ++k){\n		if (extra[k]){")],
 needs="SORT with more than four companion arrays", breaks="the fifth companion array is not permuted",
 prog='DIM A(4),B(4),C(4),D(4),E(4),F(4)\nFOR I=0 TO 3:A(I)=3-I:B(I)=I:C(I)=I:D(I)=I:E(I)=I:F(I)=I:NEXT\nSORT 0,4,A,B,C,D,E,F\nFOR I=0 TO 3:PRINT A(I);B(I);C(I);D(I);E(I);F(I):NEXT\n')

seed(id="P19-pokeh-end", property="P19",
 edits=[(X+"sbc_memory.c", "	type val = STACK_NUM(1) >> opt_shift;\\\n	*(type*)addr = val;\\", "	type val = (opt_shift && STACK_NUM(1) < 0) ? -(-STACK_NUM(1) >> opt_shift) : STACK_NUM(1) >> opt_shift;\\\n	*(type*)addr = val;\\")],
 needs="POKEB or POKEH of a negative number that is not whole", breaks="the number is rounded towards zero instead of down",
 prog='P=ADDR("GRP0")\nPOKEB P,-1.5:PRINT PEEKB(P)\nPOKEH P,-2.25:PRINT PEEKH(P)\n')

seed(id="P20-inkey-wrap", property="P20",
 edits=[(S+"input.c", "		i->current_base = (i->current_base + 1) % INKEY_BUF_SIZE;", "		i->current_base = (i->current_base + 1) % (INKEY_BUF_SIZE - 1);")],
 needs="more than 254 keys typed and read over time", breaks="keys come back out of order once the queue wraps around",
 prog="", drv=r'''#include "common.h"
#include "system.h"
#include "input.h"
#include <stdio.h>
static struct input in;
int main(void){
	init_input(&in);
	for (int i = 1; i <= 600; ++i){
		set_inkey(&in, i); set_inkey(&in, i + 1000);
		int a = get_inkey(&in), b = get_inkey(&in);
		if (a != i || b != i + 1000){ fprintf(stderr, "key %d: got %d %d\n", i, a, b); printf("wrong order\n"); return 0; }
	}
	printf("in order\n");
	return 0;
}
''', expect="in order\n")

seed(id="P21-tabstep", property="P21",
 edits=[(S+"console.c", "	if (cur_tabstep > 16) cur_tabstep = 16;\n	p->console.tabstep = cur_tabstep;", "	if (cur_tabstep > 16) cur_tabstep = 16;\n	if (p->console.x < cur_tabstep) p->console.tabstep = cur_tabstep;")],
 needs="TABSTEP assigned a number below the cursor's column", breaks="the new step is not used",
 prog='TABSTEP=8\nPRINT 1,2\nPRINT "ABCDE";:TABSTEP=2\nPRINT\nPRINT 1,2\n')

seed(id="P22-colset-green", property="P22",
 edits=[(S+"resources.c", "	g |= digit_value(str_at_wide(col_str, 3)) >> 2;", "	g |= digit_value(str_at_wide(col_str, 3)) >> 3 << 1;")],
 needs="COLSET with a green value whose third lowest bit is set", breaks="the lowest bit of green is lost",
 prog='COLSET "BG",5,"00FC00"\nCOLREAD("BG",5),R,G,B\nPRINT R,G,B\nCOLSET "BG",5,"0004F8"\nCOLREAD("BG",5),R,G,B\nPRINT R,G,B\n')

seed(id="P22-chrset-page", property="P22",
 edits=[(S+"resources.c", "		// NDS: VRAM copy works here because memcpy uses bigger blocks\n		memcpy(&res_data[32*id], chr_data, 32);", "		// NDS: VRAM copy works here because memcpy uses bigger blocks\n		memcpy(&res_data[32*id], chr_data, id < 255 ? 32 : 31);")],
 needs="CHRSET of the last character of a bank", breaks="its last two pixels keep their old colour",
 prog='CHRSET "BGU0",255,"0123456789ABCDEF"*4\nCHRREAD("BGU0",255),A$\nPRINT A$\nCHRSET "BGU0",254,"0123456789ABCDEF"*4\nCHRREAD("BGU0",254),A$\nPRINT A$\n')

seed(id="P16-prg-size", property="P16",
 edits=[(S+"resources.c", "		data[9] = (prg.size >> 8) & 0xff;", "		data[9] = (prg.size >> 8) & 0x7f;")],
 needs="SAVE of a program with a size of 32768 to 65535 bytes", breaks="the file is cut off when it is loaded again",
 prog=['SAVE "BIG"\nPRINT RESULT\n', 'NEW\nLOAD "BIG"\nPRINT RESULT\n'], opts="-p ABCDEFGHIJKLMNOPQRSTUVWXYZ*1500")

seed(id="P23-short-header", property="P23",
 edits=[(S+"resources.c", "		if (size_read < internal_header_size){", "		if (size_read < HEADER_TYPE_STR_SIZE){")],
 needs="a program file that ends within its header", breaks="loading it clears the program although the file is incomplete",
 prog=['SAVE "X"\nPRINT RESULT\n', 'LOAD "X"\nPRINT RESULT,PRGNAME$\n'], opts="-t 20 -p ABC*20")

seed(id="P11-scroll-wide", property="P11",
 edits=[(S+"console.c", "		if (i < len-1 && c->y == CONSOLE_HEIGHT){", "		if (i + 2 < len && c->y == CONSOLE_HEIGHT){")],
 needs="a string of which exactly one character is left when the last line is full", breaks="the last character is written past the last line instead of after scrolling",
 prog='LOCATE 0,23\nPRINT "A"*33;\nPRINT "B"\n')

seed(id="P03-mid-leak", property="P03",
 edits=[(I+"strfuncs.c", "	int start;\n	int len;\n	\n	void* str = STACK_REL_STR(-3);", "	int start;\n	int len;\n	dest->uses = 1;\n	\n	void* str = STACK_REL_STR(-3);"),
        (I+"strfuncs.c", "	dest->uses = 1;\n	dest->len = len;\n	\n	u8 type", "	dest->len = len;\n	\n	u8 type")],
 needs="MID$ that starts behind the end of its string, many times", breaks="each such call uses up a string slot until strings run out",
 prog='A$="ABC"\nFOR I=0 TO 5000\nB$=MID$(A$,5,2)\nNEXT\nPRINT I;B$;"*"\n')

seed(id="P06-id-256", property="P06",
 edits=[(I+"tokens.c", "					if (var_id < 256){", "					if (var_id <= 256){")],
 needs="a program compiled with variable IDs, with a variable in position 256 of the table (and one in position 0)", breaks="the two variables are the same one",
 prog='EAL=5\nCAG=1\nPRINT EAL;CAG\n', opts="-o 2")

seed(id="P10-round", property="P10",
 edits=[(I+"strs.c", "	u32 divisor = 100000;\n", "	u32 divisor = integer < 524288 ? 100000 : 10000;\n")],
 needs="a number that is rounded up to 524288", breaks="too few digits are shown for it",
 prog='A=524287\nPRINT A+0.9998\nPRINT STR$(-A-1)\n')

seed(id="P17-slots", property="P17",
 edits=[(X+"compress.c", "			cache_next_slot = (cache_next_slot + 1) % cache_maximum;\n		}\n	}\n	if", "			cache_next_slot = (cache_next_slot + 1) % cache_maximum % 48;\n		}\n	}\n	if")],
 needs="data compressed with 6 cache bits that has more than 48 new values and still gets smaller", breaks="the data is not restored",
 prog="", drv=r'''#include "extension/compress.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(void){
	enum { N = 6000 };
	static unsigned char d[N], c[2 * N], r[N];
	for (int i = 0; i < N; ++i) d[i] = i % 3 ? i * 7 % 50 : 128 + i / 30 % 100;
	int out = dup(1); freopen("/dev/null", "w", stdout);
	int n = sbc_compress(d, c, N, 6, 8);
	if (n > 0) sbc_decompress(c, r, N, 6);
	FILE* o = fdopen(out, "w");
	fprintf(o, "%s %s\n", n > 0 ? "compressed" : "not compressed", memcmp(d, r, N) ? "different" : "same");
	fclose(o);
	return 0;
}
''', expect="compressed same\n")

seed(id="P05-next-outer", property="P05",
 edits=[(I+"flow.c", "		for (u32 i = stack_i; i < p->calls.stack_i; ++i){", "		for (u32 i = stack_i; i + 1 < p->calls.stack_i; ++i){")],
 needs="NEXT of a loop that has an unfinished loop or subroutine inside", breaks="the wrong entry is dropped when the loop ends",
 prog='FOR I=0 TO 0\nFOR J=0 TO 3\nIF F GOTO @B\nF=1\nNEXT I\n@B\nPRINT J\nNEXT J\nPRINT \"END\"\n')

seed(id="P08-restore", property="P08",
 edits=[(I+"data.c", "	p->exec.data_index = bc_scan(p->exec.code, index, BC_DATA);\n	p->exec.data_offset = 0;\n//", "	idx old = p->exec.data_index;\n	p->exec.data_index = bc_scan(p->exec.code, index, BC_DATA);\n	if (p->exec.data_index != old) p->exec.data_offset = 0;\n//")],
 needs="RESTORE to the DATA line that is being read, in its middle", breaks="reading goes on in the middle of the line",
 prog='@D\nDATA 1,2,3\nREAD A,B\nRESTORE @D\nREAD C\nPRINT A;B;C\n')

seed(id="P01-atan", property="P01",
 edits=[(I+"operators.c", "	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);\n	dfixp z = ((dfixp)x << FIXPOINT) / y;\n	if (z < INT_MIN || z > INT_MAX){", "	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);\n	dfixp z = ((dfixp)x << FIXPOINT) / y;\n	if (z <= INT_MIN || z > INT_MAX){")],
 needs="a quotient of exactly -524288", breaks="an overflow is reported for a number that can be represented",
 prog='A=-262144\nPRINT A/0.5\nPRINT -524287/1\n')


seed(id="P10-minus", property="P10",
 edits=[(I+"strs.c", "		} else if (!i && c == to_wide('-')){", "		} else if (!number && c == to_wide('-')){")],
 needs="VAL of a text with a minus sign that is not its first character, after zeros or other signs", breaks="the sign is taken instead of ending the number",
 prog='PRINT VAL("0-5")\nPRINT VAL("-5")\nPRINT VAL("--5")\n')

seed(id="P13-paint-border0", property="P13",
 edits=[(S+"graphics.c", "		match = -1 - b;", "		match = b ? -1 - b : data[grp_index(x,y)];")],
 needs="GPAINT with the border color 0 on an area with several colors", breaks="only the color at the start is filled",
 prog='GPAGE 0:GCLS 1\nGFILL 10,10,20,20,2\nGBOX 5,5,25,25,0\nGPAINT 8,8,7,0\nPRINT GSPOIT(15,15);GSPOIT(8,8);GSPOIT(4,4)\n')

# ---- the panel
seed(id="P24-slide", property="P24",
 edits=[(S+"panel.c", "	} else if (p->pressed_time > 0){ // was holding", "	} else if (p->pressed_time > 30){ // was holding")],
 needs="a touch that starts on a key, is moved off it, and goes on on another key", breaks="the second key is typed although the touch was not released",
 opts='-T 85,110,5;85,60,3;100,110,9;-1,0,2', prog=['PNLTYPE "KYA"\n', 'A$=INKEY$():B$=INKEY$()\nPRINT A$;"/";B$\n'])

seed(id="P24-caps-shift", property="P24",
 edits=[(S+"panel.c", "				if (p->shift & PNL_SHIFT){\n", "				if ((p->shift & PNL_SHIFT) && !(p->shift & PNL_CAPS_LOCK)){\n")],
 needs="CAPS, then SHIFT, then two characters", breaks="SHIFT stays on for more than one character while CAPS is on",
 opts='-T 5,150,2;-1,0,2;10,130,2;-1,0,2;85,110,5;-1,0,3;85,110,5;-1,0,3', prog=['PNLTYPE "KYA"\n', 'A$=INKEY$():B$=INKEY$()\nPRINT A$;"/";B$\n'])

seed(id="P24-iconpage", property="P24",
 edits=[(S+"panel.c", "		p->iconpage -= INT_TO_FP(p->iconpage > 0);", "		p->iconpage -= INT_TO_FP(p->iconpage > FIXP_1);")],
 needs="the icon page button for the previous page on page 1", breaks="the first icon page can not be reached with the button",
 opts='-T 150,172,5;-1,0,3;150,172,5;-1,0,3', prog=['PNLTYPE "KYA":ICONPUSE=1:ICONPMAX=3:ICONPAGE=2\n', 'PRINT ICONPAGE\n'])

# ---- DIRECT mode
SESSION = r'''
#include "common.h"
#include "system.h"
#include "program.h"
#include "ptc.h"
#include "error.h"
#include "console.h"
#include "input.h"
#include "timers.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
// a DIRECT mode session: each line of the first file is typed at a prompt; the other file is the program P
static struct ptc* p; static int result = -1;
static void* session(void* x){ struct launch_info info = {p, NULL, x}; result = launch_system(&info); return NULL; }
int main(int argc, char** argv){
	int out = dup(1); freopen("/dev/null", "w", stdout); FILE* o = fdopen(out, "w"); static char dir[] = "./", text[4096];
	if (argc > 2){ FILE* f = fopen(argv[2], "r"); int n = fread(text, 1, sizeof text, f); fclose(f); for (int i = 0; i < n; ++i) if (text[i] == '\n') text[i] = '\r'; f = fopen("P.PTC", "w"); fwrite("PETC0300RPRG\0\0\0\0\0\0\0\0", 1, 20, f); fwrite(&n, 1, 4, f); fwrite(text, 1, n, f); fwrite("\0\0\0", 1, -n & 3, f); fclose(f); }
	char line[100]; FILE* f = fopen(argv[1], "r");
	init_memory(MAX_MEMORY); p = init_system(256, 64, 4096, true); p->res.search_path = dir;
	pthread_t t; pthread_create(&t, NULL, session, NULL);
	while (fgets(line, sizeof line, f)){
		for (int k = 0; k < 3000 && !(p->console.cursor_visible && get_time(&p->time) > 2); ++k){ usleep(1000); inc_time(&p->time); }
		for (char* c = line; *c; ++c) set_inkey(&p->input, *c == '\n' ? '\r' : to_wide(*c));
		for (int k = 0; k < 60; ++k){ usleep(2000); set_input(&p->input, 0); inc_time(&p->time); }
	}
	for (int y = 0; y < CONSOLE_HEIGHT; ++y){ char row[CONSOLE_WIDTH + 1] = {0}; int n = 0; for (int x = 0; x < CONSOLE_WIDTH; ++x){ u16 w = con_text_getc(&p->console, x, y); row[x] = w ? to_char(w) : ' '; if (row[x] != ' ') n = x + 1; } if (n) fprintf(o, "%d:%.*s\n", y, n, row); }
	fclose(o); _exit(0);
}
'''
seed(id="P25-run-data", property="P25",
 edits=[(I+"runner.c", "	p->exec.data_index = 0;\n	p->exec.data_offset = 0;\n	p->exec.argcount = 0;\n	p->calls.stack_i = 0; // loops and calls of the previous program\n}\n\n// For now", "	p->exec.data_offset = 0;\n	p->exec.argcount = 0;\n	p->calls.stack_i = 0; // loops and calls of the previous program\n}\n\n// For now")],
 needs="a program that READs and then starts itself again with RUN", breaks="DATA goes on behind the items that were read instead of at the first one",
 drv=SESSION, prog=['LOAD"PRG:P"\nRUN\n', 'READ A\nREAD B\nPRINT A;B\nN=N+1\nIF N<2 THEN RUN\nDATA 1,2\nDATA 3,4\nDATA 5,6\n'])

seed(id="P25-calls", property="P25",
 edits=[("source/system.c", "	p->exec.error = ERR_NONE;\n	p->calls.stack_i = 0;\n	p->exec.error = tokenize_full(prg, bc, p, tokopts);", "	p->exec.error = ERR_NONE;\n	p->exec.error = tokenize_full(prg, bc, p, tokopts);"), ("source/system.c", "		p->calls.stack_i = 0; // TODO", "		if (p->exec_old.error) p->calls.stack_i = 0; // TODO")],
 needs="a line that leaves a loop or call open without an error, then RETURN or NEXT in a later line", breaks="RETURN goes back into the code of an earlier line",
 drv=SESSION, prog=['FOR I=1 TO 2:PRINT "L";I\nNEXT\nPRINT 5\n'])

seed(id="P25-exec-vars", property="P25",
 edits=[(I+"runner.c", "		p->res.result = 0;\n		return;\n	}\n\n	// tokenize updates", "		p->res.result = p->exec.index = 0;\n		p->exec.index = p->exec.code.size;\n		return;\n	}\n\n	// tokenize updates")],
 needs="EXEC of a program that does not exist, in a program or line that goes on behind it", breaks="a failed EXEC ends the program instead of setting RESULT only",
 drv=SESSION, prog=['EXEC "NONE":PRINT RESULT;7\nPRINT 5\n'])

# ---- pictures
import os as _os
def _pic():
    d = _os.path.dirname(_os.path.abspath(__file__))
    return open(d + "/../harness/p26_shim.c").read() + open(d + "/seeddrv/pic.c").read()
PIC = _pic()
G = "source/graphics/pc/"
seed(id="P26-chr-bank", property="P26",
 edits=[(G+"display_pc.c", "			r->regen_chr[10 + CHR_BANKS * page] ||\n", "			r->regen_chr[10 * (1 - page) + CHR_BANKS * page] ||\n")],
 needs="a character of bank BGU2 of the lower screen is redefined while it is shown, and no other bank of that screen with it", breaks="the picture keeps the old character",
 drv=PIC, prog=['PNLTYPE "OFF":BGPAGE 1:BGFILL 0,0,0,40,30,600,3,0,0\n', 'CHRSET "BGU2L",88,"%s"\n' % ("1234567" * 9 + "8")])

seed(id="P26-bg-edge", property="P26",
 edits=[(G+"display_pc.c", "		for (int y = 0; y < SCREEN_HEIGHT / CHR_HEIGHT + 1; ++y){\n			u16 td = bg_tile(", "		for (int y = 0; y < SCREEN_HEIGHT / CHR_HEIGHT + (start_y % 2 == 0 || ofs_x == 0); ++y){\n			u16 td = bg_tile(")],
 needs="a background scrolled to an odd row and between tiles in both directions", breaks="the lowest, partly visible row of tiles keeps what it showed before",
 drv=PIC, prog=['BGFILL 0,0,0,63,63,5,3,0,0:FOR I=0 TO 63:BGPUT 0,I,32,I+1,2,0,0:NEXT\n', 'BGOFS 0,4,60\n', 'BGOFS 0,5,68\n'])

seed(id="P26-sprite-tall", property="P26",
 edits=[(G+"sprite.c", "		xc += -s->w / 8 * xcstep_tx;\n		yc += -s->w / 8 * ycstep_tx;", "		xc += -s->w / 8 * xcstep_tx;\n		yc += (s->flip_x ? s->h : -s->w) / 8 * ycstep_tx;")],
 needs="a sprite of several rows that is flipped horizontally and rotated", breaks="the rows below the first are drawn at other places",
 drv=PIC, prog=['SPSET 0,5,2,0,0,1,32,16:SPOFS 0,100,80:SPANGLE 0,90\n', 'SPSET 0,5,2,1,0,1:SPOFS 0,100,80\n', 'SPSET 0,5,2,1,0,1,32,16:SPOFS 0,100,80:SPANGLE 0,45\n'])

# ---- the window
def _win():
    d = _os.path.dirname(_os.path.abspath(__file__))
    return "#include <unistd.h>\n" + open(d + "/../harness/p27_shim.c").read() + open(d + "/seeddrv/win.c").read()
WIN = _win()
M = "source/main.c"
seed(id="P27-input-full", property="P27",
 edits=[(M, "					if (!success){\n						ungetc(input, inputs);\n					}\n", "					if (!success && ptc->input.current_base){\n						ungetc(input, inputs);\n					}\n")],
 needs="an input file that overfills the key buffer before the program has taken a key out of it", breaks="the character that did not fit is lost",
 drv=WIN, prog=['400:\n', '@L\nK$=INKEY$()\nIF K$=="" THEN VSYNC 1:GOTO @L\nN=N+1:IF N>250 THEN PRINT K$;\nGOTO @L\n', "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz01234567890123456789012345678901234567890" * 3])

seed(id="P27-touch-size", property="P27",
 edits=[(M, "	sfEvent event;\n	while (", "	sfEvent event;\n	sfVector2u window_size = sfRenderWindow_getSize(window);\n	while ("), (M, "		sfVector2u window_size = sfRenderWindow_getSize(window);\n", ""), (M, "			if (event.type == sfEvtClosed){", "			if (event.type == sfEvtResized){\n				window_size.x = event.size.width;\n			}\n			if (event.type == sfEvtClosed){")],
 needs="the window is made higher or lower, then touched", breaks="the touched place is computed with the old height",
 drv=WIN, prog=['3: m100,500,1\n3:\n1: s600,384 e\n5: m100,300,1 s600,384\n', '@L\nIF TCHST THEN LOCATE 0,3:PRINT TCHX;TCHY\nVSYNC 1\nGOTO @L\n'])

seed(id="P27-mode-text", property="P27",
 edits=[(M, "to_char(event.text.unicode) >= 0xa1", "to_char(event.text.unicode) > 0xa1 + key_mode")],
 needs="the katakana full stop (the first of the set) is typed", breaks="it does not arrive",
 drv=WIN, prog=['3:\n1: t12450\n1: t12290\n1: t12300\n5:\n', '@L\nK$=INKEY$()\nIF K$=="" THEN VSYNC 1:GOTO @L\nPRINT ASC(K$);\nGOTO @L\n'])

seed(id="P28-banks", property="P28",
 edits=[("util/ntr_to_ptc.c", "	int ptc_chunks = char_size / PTC_CHR_BANK_SIZE;\n", "	int ptc_chunks = char_size / PTC_CHR_BANK_SIZE & 7;\n")],
 needs="a file with eight banks (as the sprite characters have)", breaks="no file is written",
 drv="/* the input comes from the shell */\n", prog="", demo=r'''#!/bin/bash
# cwd: the repository. Converts a file of eight banks and compares what is written.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -std=gnu11 -O1 -w "$R/util/ntr_to_ptc.c" -o "$W/conv" || exit 3
cd "$W" || exit 2
python3 - <<'P' || exit 2
import struct
d=bytes((i//32*7+i)&255 for i in range(65536))
b=b"RAHC"+struct.pack("<IHHIIIII",0x20+len(d),64,32,3,0,0,len(d),0x18)+d
open("in","wb").write(b"RGCN"+struct.pack("<IIHH",0x0100feff,16+len(b),16,1)+b)
P
timeout 60 ./conv in SPU > out.txt || exit 1
python3 - <<'P'
import sys,os
d=bytes((i//32*7+i)&255 for i in range(65536))
for i in range(8):
    f="SPU%d.PTC"%i
    if not os.path.exists(f) or open(f,"rb").read()!=b"PETC0100RCHR"+d[8192*i:8192*i+8192]: print(f,"differs"); sys.exit(1)
P
''', expect="")

seed(id="P28-name", property="P28",
 edits=[("util/ntr_to_ptc.c", "	SAFE_FWRITE(pltt_data, sizeof(char), PTC_COL_BANK_SIZE, ptc_file);", "	SAFE_FWRITE(pltt_data, sizeof(char), pltt_size - pltt_size % PTC_COL_BANK_SIZE, ptc_file);")],
 needs="a colour file with more than one palette of 256 colours", breaks="the file gets all of the palettes, which COLINIT does not read",
 drv="/* the input comes from the shell */\n", prog="", demo=r'''#!/bin/bash
# cwd: the repository. Converts a file of two palettes and compares what is written.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
gcc -std=gnu11 -O1 -w "$R/util/ntr_to_ptc.c" -o "$W/conv" || exit 3
cd "$W" || exit 2
python3 - <<'P' || exit 2
import struct
d=bytes((i*5+i//256)&255 for i in range(1024))
b=b"TTLP"+struct.pack("<IIIII",0x18+len(d),4,0,len(d),0x10)+d
open("in","wb").write(b"RLCN"+struct.pack("<IIHH",0x0100feff,16+len(b),16,1)+b)
P
timeout 60 ./conv in COL0 > out.txt || exit 1
python3 -c '
import sys
d=bytes((i*5+i//256)&255 for i in range(1024))
sys.exit(open("COL0.PTC","rb").read()!=b"PETC0100RCOL"+d[:512])'
''', expect="")

def demo_with(pre, run_pre=""):
    d = _os.path.dirname(_os.path.abspath(__file__)); t = open(d + "/seeddrv/demo.sh").read()
    return t.replace('OPTS=""', pre + '\nOPTS=""')

# ---- the start and the use of memory and files
seed(id="P29-maps", property="P29",
 edits=[(S+"resources.c", 'calloc_log("init_resource scr", 1, SCR_SIZE)', 'malloc_log("init_resource scr", SCR_SIZE)')],
 needs="an interpreter started in memory that was used before (reset_memory and init_system)", breaks="background maps start with the old contents",
 drv=r"""// Starts an interpreter, runs prog0, starts another one in the same memory and runs prog1; prints its text screen.
#include "common.h"
#include "system.h"
#include "interpreter.h"
#include "program.h"
#include "tokens.h"
#include "ptc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv){
	int out = dup(1); freopen("/dev/null", "w", stdout); FILE* o = fdopen(out, "w"); struct ptc* p = NULL;
	init_memory(MAX_MEMORY);
	for (int i = 1; i < argc; ++i){
		if (p){ free_system(p); reset_memory(); }
		p = init_system(VAR_LIMIT, STR_LIMIT, ARR_LIMIT, true); p->console.test_mode = true; p->res.search_path = "./";
		struct bytecode bc = init_bytecode(); struct program prg = {0}; prg.data = calloc(MAX_SOURCE_SIZE, 1);
		FILE* f = fopen(argv[i], "r"); if (!f) return 99;
		prg.size = fread(prg.data, 1, MAX_SOURCE_SIZE, f); fclose(f);
		for (unsigned k = 0; k < prg.size; ++k) if (prg.data[k] == '\n') prg.data[k] = '\r';
		fprintf(o, "error %d\n", token_and_run(p, &prg, &bc, 0)); free(prg.data);
	}
	for (int y = 0; y < 3; ++y){ for (int x = 0; x < CONSOLE_WIDTH; ++x){ u16 w = con_text_getc(&p->console, x, y); fputc(w ? to_char(w) : ' ', o); } fputc('\n', o); }
	fclose(o); return 0;
}
""", prog=['DIM A[100]:FOR I=0 TO 99:A[I]=I+7:NEXT:BGPUT 0,9,9,300,2,0,0\n', 'DIM B[100]:FOR I=0 TO 99:S=S+B[I]:NEXT:BGREAD(0,9,9),C,P,H,V:PRINT S;" ";C;" ";P\n'])

seed(id="P29-files", property="P29",
 edits=[(S+"resources.c", "		fclose(f);\n		return !strncmp(header_type, internal_type_str[type], HEADER_TYPE_STR_SIZE);", "		if (strncmp(header_type, internal_type_str[type], HEADER_TYPE_STR_SIZE)) return false;\n		fclose(f);\n		return true;")],
 needs="some thousand attempts to load files as another type than they are", breaks="each leaves a file open, until no file can be opened any more",
 demo=demo_with("ulimit -n 200"), prog='SAVE "MEM:X"\nFOR I=1 TO 400:LOAD "COL0:X",0:N=N+RESULT:NEXT\nLOAD "MEM:X",0:PRINT N;RESULT\n')

seed(id="P08-first-data", property="P08",
 edits=[(I+"runner.c", "	r->data_offset = 0;\n	p->stack.stack_i = 0;", "	p->stack.stack_i = 0;")],
 needs="a program whose very first statement is DATA, run after one that stopped reading in the middle of a DATA line", breaks="its first READ starts in the middle of the line",
 prog=["READ A,B\nDATA 1,2,3\n", "DATA 4,5,6\nREAD A:PRINT A\n"])

seed(id="P09-spsetv", property="P09",
 edits=[(S+"sprites.c", "	STACK_INT_RANGE(0,0,99,id);\n	STACK_INT_RANGE(1,0,7,ix);\n	val = STACK_NUM(2);", "	STACK_INT_RANGE(0,0,99,id);\n	STACK_INT_RANGE(1,0,8,ix);\n	val = STACK_NUM(2);")],
 needs="SPSETV with the number just past the last variable of a sprite that exists", breaks="it writes past the sprite's variables instead of an error",
 prog='SPSET 3,5,2,0,0,1\nSPSETV 3,7,99\nPRINT SPGETV(3,7)\nSPSETV 3,8,77\nPRINT "NO ERROR"\n')

seed(id="P14-anim-rect", property="P14",
 edits=[(S+"sprites.c", "					int chr_step = spr->w * spr->h / 256;", "					int chr_step = spr->w * spr->w / 256;")],
 needs="an animated sprite that is not square and wider than 16", breaks="the animation steps over the wrong characters",
 drv=PIC, prog=['SPSET 0,64,0,0,0,0,32,16:SPOFS 0,50,50:SPANIM 0,3,2\n', 'X=0\n'], opts="-s 3")

seed(id="P21-prgname", property="P21",
 edits=[(S+"resources.c", "	memset(p->res.prgname, '\\0', sizeof(p->res.prgname)); // lazy null termination\n	strncpy(p->res.prgname, h.name, PRGNAME_STR_LENGTH);", "	for (int i = 0; i < PRGNAME_STR_LENGTH && h.name[i]; ++i) p->res.prgname[i] = h.name[i];")],
 needs="a program is loaded after one with a longer name", breaks="PRGNAME$ keeps the end of the longer name",
 prog='SAVE "LONGNAME":SAVE "AB"\nLOAD "LONGNAME",0:PRINT PRGNAME$\nLOAD "AB",0:PRINT PRGNAME$\n', opts="-p TEXT*1")

seed(id="P22-chrset-late", property="P22",
 edits=[(S+"resources.c", "		chr_data[i] = unit;", "		res_data[32 * id + i] = chr_data[i] = unit;")],
 needs="CHRSET with a text that is wrong only towards its end", breaks="the character is changed up to there although the statement fails",
 prog=['CHRSET "BGU0",7,"%s"\n' % ("1234567890ABCDEF" * 4), 'CHRSET "BGU0",7,"%s"\n' % ("F" * 60 + "G000"), 'CHRREAD("BGU0",7),A$:PRINT A$\n'])

seed(id="P26-acls-sprites", property="P26",
 edits=[("source/system.c", '"VISIBLE 1,1,1,1,1,1:ICONCLR\\r"', '"VISIBLE 1,1,1,,1,1:ICONCLR\\r"')],
 needs="ACLS while VISIBLE hides one of the layers", breaks="this layer stays hidden after ACLS",
 drv=PIC, prog=['BGFILL 1,0,0,40,30,600,3,0,0:VISIBLE 1,1,1,0,1,1\n', 'ACLS:BGFILL 0,0,0,40,30,600,3,0,0:BGFILL 1,0,0,40,30,601,3,0,0\n'])

seed(id="P27-first-mark", property="P27",
 edits=[(M, "event.text.unicode >= 12289", "event.text.unicode > 12289")],
 needs="the Japanese comma is typed", breaks="it does not arrive",
 drv=WIN, prog=['3:\n1: t12450\n1: t12289\n1: t12300\n5:\n', '@L\nK$=INKEY$()\nIF K$=="" THEN VSYNC 1:GOTO @L\nPRINT ASC(K$);\nGOTO @L\n'])

# ---- programs whose code is larger than 65536 bytes
_BIG = "".join(":".join(["A=A+1"] * 12) + "\n" for _ in range(900))
seed(id="P05-big-loop", property="P05",
 edits=[(I+"flow.c", "	idx to_start = addr & 0x00ffffff;", "	idx to_start = addr & 0x0000ffff;")],
 needs="a loop behind the first 65536 bytes of a program's code", breaks="NEXT evaluates the end of the loop somewhere else and jumps there",
 prog=_BIG + "FOR I=1 TO 3\nPRINT I\nNEXT\nPRINT A\n", opts="-v 16,128,2048")

seed(id="P08-big-restore", property="P08",
 edits=[(I+"data.c", "	p->exec.data_index = bc_scan(p->exec.code, index, BC_DATA);\n	p->exec.data_offset = 0;\n//", "	u16 start = index; // where the label is\n	p->exec.data_index = bc_scan(p->exec.code, start, BC_DATA);\n	p->exec.data_offset = 0;\n//")],
 needs="RESTORE of a label behind the first 65536 bytes of a program's code", breaks="READ continues with the items of another label",
 prog='@A\nDATA 1,2\n' + _BIG[:len(_BIG)//2] + 'DATA 9\n' + _BIG[len(_BIG)//2:] + '@B\nDATA 3,4\nRESTORE @B\nREAD X:PRINT X\nRESTORE @A\nREAD X:PRINT X\n', opts="-v 16,128,2048")

seed(id="P22-putchr-half", property="P22",
 edits=[(S+"graphics.c", "col_src + 16 * pal, 16 * sizeof(u16));", "col_src + 16 * pal, 16);")],
 needs="GPUTCHR with a palette whose upper eight colors differ", breaks="only half of the palette arrives in the graphics' colors",
 prog=['COLSET "BG",35,"FF0000":COLSET "BG",45,"00FF00"\nGPUTCHR 0,0,"BGU0",5,2,1\n', 'COLREAD("GRP",35),R,G,B:PRINT R;G;B\nCOLREAD("GRP",45),R,G,B:PRINT R;G;B\n'])

seed(id="P25-label-name", property="P25",
 edits=[(I+"label.c", "		memcpy(p->exec.error_info, buf, sizeof(buf)); // print label not found", "		memcpy(p->exec.error_info, buf, MAX_LABEL_SIZE); // print label not found")],
 needs="a reference, as a text, to a missing label with a name of 16 characters", breaks="the message lacks the end of the name",
 drv=SESSION, prog=['A$="@SIXTEENLETTERSAB"\nGOTO A$\nPRINT 5\n'])

seed(id="P04-second-index", property="P04",
 edits=[(I+"vars.c", "			arr->ptr = get_init_new_arr(v->arrs, 10, 10, type);", "			arr->ptr = get_init_new_arr(v->arrs, 10, ix, type);")],
 needs="the first access to an array without DIM has two indexes of which the first is smaller than the second", breaks="such an array is made with another size than 10x10",
 prog='A(3,2)=1:PRINT A(3,2)\nB(2,5)=7:PRINT B(2,5)\n')

_DRV = open(_os.path.dirname(_os.path.abspath(__file__)) + "/seeddrv/drv.c").read()
seed(id="P20-release", property="P20",
 edits=[(S+"input.c", "			button = ~i->button & i->old_button;", "			button = i->button ? 0 : i->old_button;")],
 needs="one of two held buttons is released", breaks="BUTTON(3) does not report it while the other one is held",
 drv=_DRV.replace("		touch = NULL;\n", "		static int frame; static const int held[] = {0, 48, 48, 16, 0}; set_input(p, held[++frame % 5]);\n		touch = NULL;\n"),
 prog=['PRINT BUTTON(3);BUTTON(2);BUTTON(0)\n'] * 6)

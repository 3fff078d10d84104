// Runs SmileBASIC programs on the interpreter and prints what they leave on the text screen.
// usage: drv [-o OPTS] [-v VARS,STRS,ARRS] [-s FRAMES] FILE...
// FRAMES frames pass after each program
// -T "X,Y,N;...": the lower screen is touched at X,Y for N frames (X<0: released) after the first program
// -t N: X.PTC is cut to N bytes after the first program; -c 1: the colours are printed as well
// -p TEXT*COUNT: COUNT lines of TEXT are the program text, which is printed as size and sum
#include "common.h"
#include "system.h"
#include "interpreter.h"
#include "program.h"
#include "tokens.h"
#include "ptc.h"
#include "error.h"
#include "vars.h"
#include "strs.h"
#include "console.h"
#include "sprites.h"
#include "background.h"
#include "timers.h"
#include "input.h"
#include "panel.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv){
	int opts = 0, frames = 0, trunc = -1, colors = 0; const char* text = NULL; const char* touch = NULL; int v = VAR_LIMIT, s = STR_LIMIT, a = ARR_LIMIT, i = 1;
	for (; i < argc && argv[i][0] == '-'; i += 2){
		if (argv[i][1] == 'o') opts = atoi(argv[i+1]);
		else if (argv[i][1] == 's') frames = atoi(argv[i+1]);
		else if (argv[i][1] == 't') trunc = atoi(argv[i+1]);
		else if (argv[i][1] == 'c') colors = atoi(argv[i+1]);
		else if (argv[i][1] == 'T') touch = argv[i+1];
		else if (argv[i][1] == 'p') text = argv[i+1];
		else sscanf(argv[i+1], "%d,%d,%d", &v, &s, &a);
	}
	int out = dup(1); freopen("/dev/null", "w", stdout); // the interpreter's own chatter
	FILE* o = fdopen(out, "w");
	init_memory(MAX_MEMORY);
	struct ptc* p = init_system(v, s, a, true);
	static char dir[] = "./";
	p->res.search_path = dir;
	p->console.test_mode = true;
	if (text) init_mem_prg(&p->exec.prg, MAX_SOURCE_SIZE);
	if (text) for (int n = atoi(strrchr(text, '*') + 1), k = 0; k < n; ++k)
		p->exec.prg.size += sprintf((char*)p->exec.prg.data + p->exec.prg.size, "%d%.*s\r", k, (int)(strrchr(text, '*') - text), text);
	struct bytecode bc = init_bytecode();
	for (; i < argc; ++i){
		struct program prg = {0};
		prg.data = calloc(MAX_SOURCE_SIZE, 1);
		FILE* f = fopen(argv[i], "r");
		if (!f) return 99;
		prg.size = fread(prg.data, 1, MAX_SOURCE_SIZE, f);
		fclose(f);
		for (unsigned k = 0; k < prg.size; ++k) if (prg.data[k] == '\n') prg.data[k] = '\r';
		int e = token_and_run(p, &prg, &bc, opts);
		fprintf(o, "error %d\n", e);
		free(prg.data);
		if (trunc >= 0){ if (truncate("X.PTC", trunc)) return 98; trunc = -1; }
		for (const char* t = touch; t && *t; t = strchr(t, ';') ? strchr(t, ';') + 1 : ""){
			int x, y, n; if (sscanf(t, "%d,%d,%d", &x, &y, &n) != 3) return 97;
			while (n-- > 0){ set_touch(&p->input, x >= 0, x, y); press_key(p, x >= 0, x, y); inc_time(&p->time); }
		}
		touch = NULL;
		for (int k = 0; k < frames; ++k){ step_sprites(&p->sprites); step_background(&p->background); inc_time(&p->time); }
	}
	if (text){
		unsigned h = 0;
		for (int k = 0; k < p->exec.prg.size; ++k) h = h * 31 + p->exec.prg.data[k];
		fprintf(o, "text %d %08x\n", p->exec.prg.size, h);
	}
	for (int y = 0; y < CONSOLE_HEIGHT && colors; ++y){
		fprintf(o, "colors %d:", y);
		for (int x = 0; x < CONSOLE_WIDTH; ++x) fprintf(o, " %02x", p->console.color[y][x]);
		fprintf(o, "\n");
	}
	for (int y = 0; y < CONSOLE_HEIGHT; ++y){
		char row[CONSOLE_WIDTH + 1] = {0}; int n = 0;
		for (int x = 0; x < CONSOLE_WIDTH; ++x){
			u16 w = con_text_getc(&p->console, x, y);
			row[x] = w ? to_char(w) : ' ';
			if (row[x] != ' ') n = x + 1;
		}
		if (n) fprintf(o, "%d:%.*s\n", y, n, row);
	}
	fclose(o);
	return 0;
}

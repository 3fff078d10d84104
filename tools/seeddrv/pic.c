// ---- pictures: runs each program, draws, and prints a checksum of each row of 16 lines
#include "interpreter.h"
#include "program.h"
#include "tokens.h"
#include "error.h"
#include "timers.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static struct ptc* the_ptc; struct ptc* sh_ptc(void){ return the_ptc; }
void p26_shade(float bank, int grp, int red, int r, uint8_t out[4]){ p26_texel(r / 255.0f + (grp || !r ? 0 : red / 255.0f), bank / 5.0f, out); }
int main(int argc, char** argv){
	int out = dup(1); freopen("/dev/null", "w", stdout); FILE* o = fdopen(out, "w"); int frames = 0, i = 1;
	for (; i < argc && argv[i][0] == '-'; i += 2) frames = atoi(argv[i + 1]);
	init_memory(MAX_MEMORY); struct ptc* p = the_ptc = init_system(64, 64, 4096, true); static char dir[] = "./"; p->res.search_path = dir; p->console.test_mode = true;
	unsigned r = 1; for (int b = 0; b < CHR_BANKS * SCREEN_COUNT; ++b) for (int k = 0; k < CHR_SIZE; ++k) p->res.chr[b][k] = k < 32 ? 0 : (r = r * 1664525 + 1013904223) >> 24;
	for (int b = 0; b < COL_BANKS * SCREEN_COUNT; ++b) for (int k = 0; k < 256; ++k) p->res.col[b][k] = (r = r * 1664525 + 1013904223) >> 16;
	sh_display(1);
	struct bytecode bc = init_bytecode();
	for (; i < argc; ++i){
		struct program prg = {0}; prg.data = calloc(MAX_SOURCE_SIZE, 1); FILE* f = fopen(argv[i], "r"); if (!f) return 99; prg.size = fread(prg.data, 1, MAX_SOURCE_SIZE, f); fclose(f);
		for (unsigned k = 0; k < prg.size; ++k) if (prg.data[k] == '\n') prg.data[k] = '\r';
		fprintf(o, "error %d\n", token_and_run(p, &prg, &bc, 0)); free(prg.data);
		for (int k = 0; k < frames; ++k){ step_sprites(&p->sprites); step_background(&p->background); inc_time(&p->time); }
		sh_draw();
		for (int y = 0; y < 384; y += 16){ unsigned h = 7; for (int k = 0; k < 16 * 256; ++k) h = h * 31 + p26_fb[y][k]; fprintf(o, " %08x", h); }
		fprintf(o, "\n");
	}
	fclose(o); return 0;
}

// main() of the PC version with a scripted window. prog0: frames, one per line: "count: k<key> t<unicode> m<x>,<y>,<buttons>",
// prog1: the program, prog2: the input file. Prints the screen after the last frame.
#include <sys/stat.h>
static struct ptc* PT; void sh_set_ptc(struct ptc* p){ PT = p; } struct ptc* sh_ptc(void){ return PT; } void sh_redzones(bool b){ (void)b; }
void (*sh_on_sleep)(void);
int thrd_sleep(const struct timespec* d, struct timespec* r){ (void)d; (void)r; if (sh_on_sleep) sh_on_sleep(); return 0; }
static char* line[1000]; static int nl;
void p27_script(int f){
	if (f >= nl){ p27_set(512, 768, 0, 0, 0); p27_event(sfEvtClosed, 0); return; }
	int x = 0, y = 0, b = 0, w = 512, h = 768; char* s = line[f]; for (char* q = s; (q = strchr(q, 'm')); ++q) sscanf(q, "m%d,%d,%d", &x, &y, &b); char* z = strchr(s, 's'); if (z) sscanf(z, "s%d,%d", &w, &h);
	p27_set(w, h, x, y, b); for (char* q = s; *q; ++q){ if (*q == 'k') p27_key(atoi(q + 1)); if (*q == 't') p27_event(sfEvtTextEntered, atoi(q + 1)); if (*q == 'e') p27_event(sfEvtMouseMoved, 0); }
	if (f == nl - 1) p27_event(sfEvtClosed, 0);
}
void p27_shown(int f){ if (f != nl - 1) return; for (int y = 0; y < 24; ++y){ char o[33]; int n = 0; for (int x = 0; x < 32; ++x){ u16 w = con_text_getc(&PT->console, x, y); int c = w ? to_char(w) : ' '; o[x] = c < 32 || c > 126 ? (c == ' ' ? ' ' : '#') : c; if (o[x] != ' ') n = x + 1; } o[n] = 0; if (n) fprintf(stderr, "%2d|%s\n", y, o); } fflush(stderr); }
static char buf[65536];
static long load(const char* f){ FILE* i = fopen(f, "rb"); if (!i) return -1; long n = fread(buf, 1, sizeof buf - 1, i); fclose(i); buf[n] = 0; return n; }
static char text[65536];
int main(int argc, char** argv){
	dup2(1, 2); freopen("/dev/null", "w", stdout); mkdir("resources", 0755); mkdir("programs", 0755);
	FILE* o = fopen("resources/config.txt", "wb"); fputs("73 74 71 72 58 99 99 59 38 42 99 36 39\n22 18 0 3 72 74 73 71 38 42 58 36 39\n", o); fclose(o);
	if (argc > 2){ long n = load(argv[2]); for (long i = 0; i < n; ++i) if (buf[i] == '\n') buf[i] = '\r'; char h[24] = "PETC0300RPRG"; uint32_t z = n; memcpy(h + 20, &z, 4); o = fopen("programs/P.PTC", "wb"); fwrite(h, 1, 24, o); fwrite(buf, 1, (n + 3) & ~3, o); fclose(o); }
	if (argc > 3){ long n = load(argv[3]); for (long i = 0; i < n; ++i) if (buf[i] == '\n') buf[i] = '\r'; o = fopen("in.txt", "wb"); fwrite(buf, 1, n, o); fclose(o); }
	load(argv[1]); strcpy(text, buf); for (char* s = strtok(text, "\n"); s; s = strtok(NULL, "\n")){ int n = atoi(s); char* c = strchr(s, ':'); for (int i = 0; i < n && nl < 1000; ++i) line[nl++] = c + 1; }
	p27_frames(nl); return p27_run(argc > 2 ? "P" : NULL, argc > 3 ? "in.txt" : NULL);
}

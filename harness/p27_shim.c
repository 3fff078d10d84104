// main() of the PC version with a scripted window: the keyboard, mouse and events of each frame come from the
// property; the program thread runs between frames, until it sleeps.
#include "common.h"
#include "system.h"
#include "ptc.h"
#include "sbc_blockalloc.h"
#include <SFML/Graphics.h>
#include <SFML/Window.h>
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <string.h>
void sh_set_ptc(struct ptc* p); struct ptc* sh_ptc(void); void sh_redzones(bool);
extern void (*sh_on_sleep)(void);
// ---- the program thread
static pthread_t th; static sem_t to_prog, to_main; static int (*entry)(void*); static void* entry_arg; static int done, ret, started; static long sleeps; long p27_joins;
static void* body(void* a){ (void)a; sem_wait(&to_prog); ret = entry(entry_arg); done = 1; sem_post(&to_main); return NULL; }
static void asleep(void){ ++sleeps; sem_post(&to_main); sem_wait(&to_prog); }
static int create(thrd_t* t, int (*f)(void*), void* arg){
	entry = f; entry_arg = arg; done = 0; sleeps = 0; sem_init(&to_prog, 0, 0); sem_init(&to_main, 0, 0); sh_set_ptc(((struct launch_info*)arg)->p); sh_on_sleep = asleep; started = 1; if (t) memset(t, 0, sizeof *t);
	return pthread_create(&th, NULL, body, NULL) ? thrd_error : thrd_success;
}
static void step(void){ if (started && !done){ sem_post(&to_prog); sem_wait(&to_main); } }
static int join(thrd_t t, int* r){ (void)t; for (long i = 0; !done; ++i){ if (i > 20000){ static const char m[] = "runtime error: the program goes on after the window was closed\n"; fwrite(m, 1, sizeof m - 1, stderr); fflush(stderr); abort(); } step(); } ++p27_joins; pthread_join(th, NULL); started = 0; sh_on_sleep = NULL; if (r) *r = ret; return thrd_success; }
// ---- the window
struct { int open, frame, frames, w, h, mx, my, btn, nev, ev, rate, destroyed; uint8_t keys[128]; struct { int type; unsigned code; } e[32]; } p27;
void p27_script(int frame); void p27_shown(int frame);
sfRenderWindow* sfRenderWindow_create(sfVideoMode m, const char* t, sfUint32 s, const sfContextSettings* c){ (void)m; (void)t; (void)s; (void)c; p27.open = 1; p27.frame = -1; return (sfRenderWindow*)&p27; }
void sfRenderWindow_setFramerateLimit(sfRenderWindow* w, unsigned n){ (void)w; p27.rate = n; }
static long asked;
sfBool sfRenderWindow_isOpen(const sfRenderWindow* w){ (void)w; if (!p27.open || p27.frame > p27.frames + 3) return 0; ++p27.frame; p27.ev = 0; asked = 0; p27_script(p27.frame); return 1; }
sfBool sfRenderWindow_pollEvent(sfRenderWindow* w, sfEvent* e){
	(void)w; if (p27.ev >= p27.nev){ if (++asked > 10000) abort(); return 0; } memset(e, 0x55, sizeof *e); e->type = p27.e[p27.ev].type; unsigned c = p27.e[p27.ev++].code;
	if (e->type == sfEvtTextEntered) e->text.unicode = c; else if (e->type == sfEvtKeyPressed || e->type == sfEvtKeyReleased){ e->key.code = c; e->key.alt = e->key.control = e->key.shift = e->key.system = 0; } else if (e->type == sfEvtResized){ e->size.width = p27.w; e->size.height = p27.h; } else if (e->type == sfEvtMouseButtonPressed){ e->mouseButton.button = c % 2; e->mouseButton.x = p27.mx; e->mouseButton.y = p27.my; } else if (e->type == sfEvtMouseMoved){ e->mouseMove.x = p27.mx; e->mouseMove.y = p27.my; }
	return 1;
}
void sfRenderWindow_close(sfRenderWindow* w){ (void)w; p27.open = 0; }
void sfRenderWindow_destroy(sfRenderWindow* w){ (void)w; p27.open = 0; ++p27.destroyed; }
sfVector2u sfRenderWindow_getSize(const sfRenderWindow* w){ (void)w; return (sfVector2u){p27.w, p27.h}; }
sfBool sfRenderWindow_hasFocus(const sfRenderWindow* w){ (void)w; return 1; }
void sfRenderWindow_setTitle(sfRenderWindow* w, const char* t){ (void)w; (void)t; }
void sfRenderWindow_setKeyRepeatEnabled(sfRenderWindow* w, sfBool b){ (void)w; (void)b; }
sfBool sfKeyboard_isKeyPressed(sfKeyCode k){ return (int)k >= 0 && (int)k < 101 && p27.keys[k]; }
sfBool sfMouse_isButtonPressed(sfMouseButton b){ return b == sfMouseLeft ? p27.btn & 1 : b == sfMouseRight ? p27.btn >> 1 & 1 : 0; }
sfVector2i sfMouse_getPosition(const sfWindow* w){ return w ? (sfVector2i){p27.mx, p27.my} : (sfVector2i){p27.mx + 333, p27.my + 77}; }
sfVector2i sfMouse_getPositionRenderWindow(const sfRenderWindow* w){ return sfMouse_getPosition((const sfWindow*)w); }
void sfRenderWindow_clear(sfRenderWindow* w, sfColor c){ (void)w; (void)c; }
void sfRenderWindow_setView(sfRenderWindow* w, const sfView* v){ (void)w; (void)v; }
void sfRenderWindow_display(sfRenderWindow* w){ if (w != (sfRenderWindow*)&p27) return; step(); p27_shown(p27.frame); }
void sfRenderWindow_drawVertexArray(sfRenderWindow* w, const sfVertexArray* va, const sfRenderStates* st){ (void)w; (void)va; (void)st; }
void sfRenderWindow_drawSprite(sfRenderWindow* w, const sfSprite* sp, const sfRenderStates* st){ (void)w; (void)sp; (void)st; }
sfTexture* sfTexture_create(unsigned w, unsigned h){ (void)w; (void)h; return calloc(1, 16); }
void sfTexture_destroy(sfTexture* s){ free(s); }
void sfTexture_updateFromPixels(sfTexture* s, const sfUint8* p, unsigned w, unsigned h, unsigned x, unsigned y){ (void)s; (void)p; (void)w; (void)h; (void)x; (void)y; }
sfSprite* sfSprite_create(void){ return calloc(1, 16); }
void sfSprite_destroy(sfSprite* s){ free(s); }
void sfSprite_setTexture(sfSprite* s, const sfTexture* t, sfBool reset){ (void)s; (void)t; (void)reset; }
sfBool sfShader_isAvailable(void){ return 1; }
sfShader* sfShader_createFromFile(const char* a, const char* b, const char* c){ (void)a; (void)b; (void)c; return calloc(1, 16); }
void sfShader_destroy(sfShader* s){ free(s); }
void sfShader_setFloatUniform(sfShader* s, const char* n, float v){ (void)s; (void)n; (void)v; }
void sfShader_setBoolUniform(sfShader* s, const char* n, sfBool v){ (void)s; (void)n; (void)v; }
void sfShader_setIntUniform(sfShader* s, const char* n, int v){ (void)s; (void)n; (void)v; }
void sfShader_setTextureUniform(sfShader* s, const char* n, const sfTexture* t){ (void)s; (void)n; (void)t; }
void sfShader_setCurrentTextureUniform(sfShader* s, const char* n){ (void)s; (void)n; }
// ---- /repo's main
#define main sbc_main
#define thrd_create create
#define thrd_join join
// (what is drawn is P26's)
static void draw(struct ptc* p){ sfRenderWindow_display(p->display.rw); }
#define display_draw_all draw
int sbc_main(int argc, char** argv);
#include "main.c"
#undef main
#undef thrd_create
#undef thrd_join
#undef display_draw_all
void p27_frames(int n){ memset(&p27, 0, sizeof p27); p27.frames = n; }
void p27_set(int w, int h, int mx, int my, int btn){ p27.w = w; p27.h = h; p27.mx = mx; p27.my = my; p27.btn = btn; memset(p27.keys, 0, sizeof p27.keys); p27.nev = 0; }
void p27_key(int k){ if (k >= 0 && k < 128) p27.keys[k] = 1; }
void p27_event(int type, unsigned code){ if (p27.nev < 32){ p27.e[p27.nev].type = type; p27.e[p27.nev++].code = code; } }
int p27_rate(void){ return p27.rate; }
int p27_run(const char* prg, const char* inputs){
	sh_redzones(false); if (sbc_membase) free_memory(); p27_joins = 0; char a[] = "sbc", p[64], q[64]; char* argv[4] = {a, NULL, NULL, NULL}; int n = 1;
	if (prg){ strncpy(p, prg, 63); argv[n++] = p; if (inputs){ strncpy(q, inputs, 63); argv[n++] = q; } }
	int r = sbc_main(n, argv); sh_set_ptc(NULL); sh_on_sleep = NULL; return r;
}
// the same system without a window
void p27_new(void){ if (sbc_membase) free_memory(); init_memory(MAX_MEMORY); sh_set_ptc(init_system(VAR_LIMIT, STR_LIMIT, ARR_LIMIT, false)); }
void p27_free(void){ free_system(sh_ptc()); sh_set_ptc(NULL); free_memory(); }
int p27_launch(const char* prg){ struct launch_info info = {sh_ptc(), NULL, prg}; return launch_system(&info); }
void p27_close(void){ shutdown_system(sh_ptc()); }
void p27_press(int t, int x, int y){ press_key(sh_ptc(), t, x, y); }
void p27_steps(void){ struct ptc* p = sh_ptc(); step_sprites(&p->sprites); step_background(&p->background); inc_time(&p->time); }

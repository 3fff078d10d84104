// State of the interpreter that the other fingerprints leave out, and its end.
#include "common.h"
#include "system.h"
#include "ptc.h"
#include "console.h"
#include "panel.h"
#include "input.h"
#include <string.h>
#include <sanitizer/allocator_interface.h>
#include <fcntl.h>
struct ptc* sh_ptc(void);
#define P sh_ptc()
typedef uint64_t u64;
static u64 fnv(u64 h, const void* p, long n){ const u8* b = p; for (long i = 0; i < n; ++i){ h ^= b[i]; h *= 1099511628211ull; } return h; }
static u64 con(u64 h, struct console* c){
	int v[] = {c->x, c->y, c->col, c->cursor_visible}; h = fnv(h, c->text, sizeof c->text); h = fnv(h, c->color, sizeof c->color); h = fnv(h, v, sizeof v); return fnv(h, &c->sys_tabstep, sizeof c->sys_tabstep);
}
static u64 spr(u64 h, struct sprite_info* q){
	int a = q->active; h = fnv(h, &a, sizeof a); if (!a) return h;
	int v[] = {q->id, q->chr, q->pal, q->w, q->h, q->prio, q->flip_x, q->flip_y, q->home_x, q->home_y, q->pos.x, q->pos.y, q->angle.a, q->scale.s, q->anim.current_chr};
	return fnv(h, v, sizeof v);
}
// 0 texts of the panel, 1 keys of the panel, 2 panel state and function keys, 3 input, 4 screens (characters of the lower screen), 5 names, time and refresh marks
void sh_digest_more(uint64_t out[6]){
	const u64 B = 1469598103934665603ull; u64 h;
	struct panel* n = &P->panel;
	out[0] = con(con(B, n->text), n->keys_text);
	h = B; for (int i = 0; i < PANEL_KEYS; ++i) h = spr(h, &n->keys[i]); out[1] = h;
	h = B; for (int i = 0; i < 5; ++i){ h = fnv(h, &n->func_keys_len[i], 2); h = fnv(h, n->func_keys[i], 2 * n->func_keys_len[i]); }
	{ int v[] = {n->type, n->key_pressed, n->id_pressed, n->pressed_time, n->shift, n->cursor, n->iconpuse, n->iconpmax, n->iconpage}; h = fnv(h, v, sizeof v); } out[2] = h;
	h = B; { struct input* i = &P->input; int v[] = {i->button, i->old_button, i->tchx, i->tchy, i->tchtime, i->keyboard, (u16)(i->current_write - i->current_base)}; h = fnv(h, v, sizeof v); for (int b = 0; b < BUTTON_COUNT; ++b){ int t[] = {i->times[b].start, i->times[b].repeat, i->times[b].frame}; h = fnv(h, t, sizeof t); }
		for (u16 k = i->current_base; (u16)(k % INKEY_BUF_SIZE) != i->current_write % INKEY_BUF_SIZE; ++k) h = fnv(h, &i->inkey_buf[k % INKEY_BUF_SIZE], 2); } out[3] = h;
	h = B; for (int i = 0; i < SCR_BANKS * SCREEN_COUNT; ++i) h = fnv(h, P->res.scr[i], SCR_SIZE); for (int i = 0; i < 12; ++i) h = fnv(h, P->res.key_chr[i], CHR_SIZE); out[4] = h;
	h = fnv(B, P->res.prgname, strlen(P->res.prgname) + 1); h = fnv(h, P->res.package, strlen(P->res.package) + 1); { int64_t t = get_time(&P->time); h = fnv(h, &t, sizeof t); int v[] = {P->shutdown, P->memapi.sys_memsafe}; h = fnv(h, v, sizeof v); } out[5] = h;
}
void sh_free_system(void){ free_system(P); }
void sh_reset_memory(void){ reset_memory(); }
long sh_heap(void){ return __sanitizer_get_current_allocated_bytes(); }
int sh_files(void){ int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }

#include "common.h"
#include "system.h"
#include "interpreter.h"
#include "program.h"
#include "tokens.h"
#include "ptc.h"
#include "error.h"
#include "vars.h"
#include "arrays.h"
#include "strs.h"
#include "shim.h"
#include <string.h>

static struct ptc* P;
static struct bytecode BC;
static char src_buf[MAX_SOURCE_SIZE];

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif
#endif
// Interpose on the block allocator: fixed fill instead of left-over data, and
// a poisoned red zone after each block so AddressSanitizer sees overruns.
void* __real_sbc_malloc(int size);
void* __real_sbc_calloc(int count, int size);
void __real_reset_memory(void);
enum { RZ = 128 };
static bool redzones = true;
bool sh_unclear;
static void* place(int size, int fill){
	long n = (long)size;
	int pad = redzones ? RZ : 0;
	long total = (n + pad + 15) & ~15L;
	char* m = __real_sbc_malloc((int)total + (redzones ? 16 : 0));
	char* a = (char*)(((uintptr_t)m + 15) & ~(uintptr_t)15);
	if (!redzones) a = m;
	memset(a, fill, n);
#ifdef HAVE_ASAN
	if (redzones) __asan_poison_memory_region(a + n, m + total + 16 - (a + n));
#endif
	return a;
}
// Raw mode: the interpreter's own allocator as it is; every block is noted.
bool sh_raw; struct sh_block sh_blocks[SH_BLOCKS]; int sh_nblocks;
static void* note(void* p, long n, bool cleared){
	if (sh_nblocks < SH_BLOCKS) sh_blocks[sh_nblocks++] = (struct sh_block){p, n, cleared};
	return p;
}
void* __wrap_sbc_malloc(int size){ return sh_raw ? note(__real_sbc_malloc(size), size, false) : place(size, 0x5a); }
void* __wrap_sbc_calloc(int count, int size){
	if (!sh_raw) return place(count * size, 0);
	u8* q = __real_sbc_calloc(count, size); long n = (long)count * size; bool z = true;
	for (long i = 0; i < n && z; ++i) z = !q[i];
	if (!z) sh_unclear = true;
	return note(q, n, true);
}
uint8_t* sh_memnext(void){ return __real_sbc_malloc(0); }
// All of the arena holds other data before the next system is made (seed 0: zeroes).
void sh_fill_arena(uint64_t seed){
	if (!sbc_membase) init_memory(MAX_MEMORY);
#ifdef HAVE_ASAN
	__asan_unpoison_memory_region(sbc_membase, MAX_MEMORY);
#endif
	uint64_t* a = sbc_membase;
	for (long i = 0; i < MAX_MEMORY / 8; ++i){ a[i] = seed; if (seed){ seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; } }
}
void sh_redzones(bool on){ redzones = on; }

static void fresh_memory(void){
	if (!sbc_membase) init_memory(MAX_MEMORY);
#ifdef HAVE_ASAN
	__asan_unpoison_memory_region(sbc_membase, MAX_MEMORY);
#endif
	reset_memory();
}
struct ptc* sh_ptc(void){ return P; }
void sh_set_ptc(struct ptc* p){ P = p; }
void sh_new(int vars, int strs, int arrs){
	fresh_memory();
	P = init_system(vars, strs, arrs, true);
	P->res.search_path = "/nonexistent/";
	P->console.test_mode = true;
	init_mem_prg(&P->exec.prg, MAX_SOURCE_SIZE);
	BC = init_bytecode();
}
void sh_new_default(void){ sh_new(VAR_LIMIT, STR_LIMIT, ARR_LIMIT); }
void sh_search_path(const char* path){ P->res.search_path = path; }
int sh_compile(const char* src, int len, int opts, int* bc_size){
	if (len > MAX_SOURCE_SIZE) len = MAX_SOURCE_SIZE;
	memcpy(P->exec.prg.data, src, len);
	P->exec.prg.size = len;
	P->exec.error = ERR_NONE; P->calls.stack_i = 0;
	int e = tokenize_full(&P->exec.prg, &BC, P, opts);
	P->exec.error = e;
	if (bc_size) *bc_size = BC.size;
	return e;
}
int sh_rerun(void){
	P->exec.error = ERR_NONE; P->calls.stack_i = 0;
	run(BC, P);
	return P->exec.error;
}
int sh_run(const char* src, int len, int opts){
	(void)src_buf;
	memcpy(P->exec.prg.data, src, len);
	P->exec.prg.size = len;
	return token_and_run(P, &P->exec.prg, &BC, opts);
}
int sh_error(void){ return P->exec.error; }
const char* sh_error_text(int e){ return error_messages[e]; }
// string names may be given with or without the $
static int nlen(const char* name){ int n = strlen(name); return n && name[n - 1] == '$' ? n - 1 : n; }
bool sh_num(const char* name, int32_t* out){
	struct named_var* v = get_var(&P->vars, (char*)name, strlen(name), VAR_NUMBER);
	if (!v) return false;
	*out = v->value.number; return true;
}
int sh_str_value(const void* s, uint16_t out[512]){
	if (!s) return -1;
	u32 n = str_len(s);
	for (u32 i = 0; i < n && i < 512; ++i) out[i] = str_at_wide(s, i);
	return n;
}
int sh_str(const char* name, uint16_t out[512]){
	struct named_var* v = get_var(&P->vars, (char*)name, nlen(name), VAR_STRING);
	if (!v) return -1;
	return sh_str_value(v->value.ptr, out);
}
bool sh_anum(const char* name, int x, int y, int32_t* out){
	union value* v = get_arr_entry(&P->vars, (char*)name, strlen(name), VAR_NUMBER | VAR_ARRAY, x, y < 0 ? ARR_DIM2_UNUSED : (u32)y);
	if (!v) return false;
	*out = v->number; return true;
}
int sh_astr(const char* name, int x, int y, uint16_t out[512]){
	union value* v = get_arr_entry(&P->vars, (char*)name, nlen(name), VAR_STRING | VAR_ARRAY, x, y < 0 ? ARR_DIM2_UNUSED : (u32)y);
	if (!v) return -1;
	return sh_str_value(v->ptr, out);
}
int sh_dyn_used(void){
	int n = 0;
	for (u32 i = 0; i < P->strs.strs_max; ++i) n += P->strs.strs[i].uses > 0;
	return n;
}
int sh_dyn_uses(void){
	int n = 0;
	for (u32 i = 0; i < P->strs.strs_max; ++i) n += (int)P->strs.strs[i].uses;
	return n;
}
static int refs_tmp[65536];
static int count_refs(void){
	int n = 0;
	memset(refs_tmp, 0, sizeof(refs_tmp));
	#define REF(q) { struct string* s_ = (struct string*)(q); if (s_ && s_ >= P->strs.strs && s_ < P->strs.strs + P->strs.strs_max){ ++n; ++refs_tmp[s_ - P->strs.strs]; } }
	for (u32 i = 0; i < P->vars.vars_max; ++i){
		struct named_var* v = &P->vars.vars[i];
		if (v->type == VAR_STRING) REF(v->value.ptr)
		else if (v->type == (VAR_STRING | VAR_ARRAY) && v->value.ptr){
			u32 a = arr_size(v->value.ptr, ARR_DIM1), b = arr_size(v->value.ptr, ARR_DIM2);
			if (b == ARR_DIM2_UNUSED) b = 1;
			for (u32 k = 0; k < a * b; ++k) REF(arr_data(v->value.ptr)[k].ptr)
		}
	}
	if (P->res.mem_ptr != &P->res.mem_str) REF(P->res.mem_ptr)
	return n;
}
int sh_dyn_refs(void){ return count_refs(); }
int sh_dyn_bad(void){
	count_refs();
	for (u32 i = 0; i < P->strs.strs_max && i < 65536; ++i) if ((int)P->strs.strs[i].uses != refs_tmp[i]) return i;
	return -1;
}
int sh_var_count(void){ return P->vars.var_count; }
uint16_t sh_con_char(int x, int y){ return con_text_getc(&P->console, x, y); }
uint8_t sh_con_col(int x, int y){ return con_col_get(&P->console, x, y); }
void sh_con_pos(int* x, int* y){ *x = P->console.x; *y = P->console.y; }
int sh_con_cursor(void){ return P->console.cursor_visible; }
void sh_test_mode(bool on){ P->console.test_mode = on; }
uint16_t sh_to_wide(uint8_t c){ return to_wide(c); }
int sh_to_char(uint16_t w){ return to_char(w); }
uint8_t sh_grp(int page, int x, int y){ return P->res.grp[page][grp_index(x, y)]; }
uint8_t* sh_grp_raw(int page){ return P->res.grp[page]; }
uint16_t sh_bg(int screen, int layer, int x, int y){ return bg_tile(P, screen, layer, x, y); }
void sh_frame(void){
	inc_time(&P->time);
	step_sprites(&P->sprites);
	step_background(&P->background);
}
void sh_inc_time(int64_t n){ while (n-- > 0) inc_time(&P->time); }
void sh_set_time(int64_t t){ P->time.time = t; }
int64_t sh_time(void){ return get_time(&P->time); }
bool sh_inkey(uint16_t k){ return set_inkey(&P->input, k); }
void sh_input(int b){ set_input(P, b); }
void sh_touch(bool t, int x, int y){ set_touch(&P->input, t, x, y); }
void sh_break(void){ P->exec.error = ERR_BREAK; }
#include <signal.h>
#include <sys/time.h>
#define NO_LIMIT 0x7fffffffffffL
long vf_budget = NO_LIMIT; static bool limited, limit_hit;
void (*sh_at_print)(void); // called once when the budget is used up (a moment chosen by the property)
void sh_print_budget(long n){ vf_budget = n; }
void vf_out_of_budget(void){
	if (sh_at_print){ void (*f)(void) = sh_at_print; sh_at_print = NULL; vf_budget = NO_LIMIT; f(); return; }
	if (!limited){ vf_budget = NO_LIMIT; return; }
	limit_hit = true; vf_budget = 256; if (P) P->exec.error = ERR_BREAK;
}
static void on_vtalrm(int s){ (void)s; if (limited){ limit_hit = true; if (P) P->exec.error = ERR_BREAK; } }
void sh_limit(long n, int ms){
	limited = n > 0; limit_hit = false; vf_budget = n > 0 ? n : NO_LIMIT;
	signal(SIGVTALRM, on_vtalrm);
	struct itimerval it = {{0}}; if (limited){ it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = ms % 1000 * 1000; it.it_interval.tv_usec = 20000; }
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}
bool sh_limit_hit(void){ return limit_hit; }
int sh_set_num(const char* name, int32_t v){
	struct named_var* n = get_var(&P->vars, (char*)name, strlen(name), VAR_NUMBER);
	if (!n) return 0;
	n->value.number = v; return 1;
}
int sh_clear_error(void){ P->exec.error = ERR_NONE; P->vars.error = ERR_NONE; return 0; }
// Gives a string variable a fresh dynamic string of the given 8-bit characters.
int sh_set_str(const char* name, const uint8_t* s, int n){
	struct named_var* v = get_var(&P->vars, (char*)name, nlen(name), VAR_STRING);
	if (!v) return 0;
	struct string* d = get_new_str(&P->strs);
	if (!d) return 0;
	struct string* old = (struct string*)v->value.ptr;
	if (old && old >= P->strs.strs && old < P->strs.strs + P->strs.strs_max && old->uses) old->uses--;
	d->type = STRING_CHAR; d->uses = 1; d->len = n;
	memcpy(d->ptr.s, s, n);
	v->value.ptr = d;
	return 1;
}
int sh_mem_text(uint16_t out[512]){ return sh_str_value(P->res.mem_ptr, out); }

// Sleeping passes one frame at once, so waiting programs go on without a display thread.
#include <threads.h>
#include <time.h>
void (*sh_on_sleep)(void); long sh_sleeps;
int __wrap_thrd_sleep(const struct timespec* d, struct timespec* r){
	(void)d; (void)r; ++sh_sleeps;
	if (sh_on_sleep) sh_on_sleep(); else if (P) inc_time(&P->time);
	return 0;
}
typedef uint64_t u64;
static u64 fnv(u64 h, const void* p, long n){ const u8* b = p; for (long i = 0; i < n; ++i){ h ^= b[i]; h *= 1099511628211ull; } return h; }
// Fingerprints of the parts of the observable state: console, graphics, backgrounds, sprites, character/colour data, the rest
void sh_digest(uint64_t out[6]){
	const u64 B = 1469598103934665603ull; u64 h;
	struct console* c = &P->console; int cx = c->x, cy = c->y;
	h = fnv(B, c->text, sizeof c->text); h = fnv(h, c->color, sizeof c->color); h = fnv(h, &cx, sizeof cx); h = fnv(h, &cy, sizeof cy); h = fnv(h, &c->col, 1); h = fnv(h, &c->sys_tabstep, sizeof c->sys_tabstep); out[0] = h;
	h = B; for (int i = 0; i < GRP_BANKS; ++i) h = fnv(h, P->res.grp[i], 256 * 192);
	{ int v[9] = {P->graphics.screen, P->graphics.color, P->graphics.drawmode}; for (int i = 0; i < 2; ++i){ v[3 + 3*i] = P->graphics.info[i].drawpage; v[4 + 3*i] = P->graphics.info[i].displaypage; v[5 + 3*i] = P->graphics.info[i].prio; } h = fnv(h, v, sizeof v); } out[1] = h;
	h = B; for (int s = 0; s < 2; ++s){ for (int l = 0; l < 2; ++l){ for (int y = 0; y < 64; ++y) for (int x = 0; x < 64; ++x){ u16 t = bg_tile(P, s, l, x, y); h = fnv(h, &t, 2); } struct bg_offset* o = &P->background.ofs[s][l]; int v[5] = {o->x, o->y, o->time, o->time ? o->step_x : 0, o->time ? o->step_y : 0}; h = fnv(h, v, sizeof v); }
		int v[4] = {P->background.clip[s].x1, P->background.clip[s].y1, P->background.clip[s].x2, P->background.clip[s].y2}; h = fnv(h, v, sizeof v); } { int v = P->background.page; h = fnv(h, &v, sizeof v); } out[2] = h;
	h = B; for (int s = 0; s < 2; ++s) for (int i = 0; i < MAX_SPRITES; ++i){ struct sprite_info* q = &P->sprites.info[s][i]; int a = q->active; h = fnv(h, &a, sizeof a); if (!a) continue;
		int v[] = {q->id, q->chr, q->pal, q->w, q->h, q->prio, q->flip_x, q->flip_y, q->home_x, q->home_y, q->pos.x, q->pos.y, q->pos.time, q->scale.s, q->scale.time, q->angle.a, q->angle.time, q->hit.dx, q->hit.dy, q->hit.x, q->hit.y, q->hit.w, q->hit.h, q->hit.scale_adjust, q->hit.mask, q->anim.current_chr};
		h = fnv(h, v, sizeof v); h = fnv(h, q->vars, sizeof q->vars); }
	{ int v[] = {P->sprites.page, P->sprites.sphitno}; h = fnv(h, v, sizeof v); } out[3] = h;
	h = B; for (int i = 0; i < CHR_BANKS * SCREEN_COUNT; ++i) h = fnv(h, P->res.chr[i], CHR_SIZE); for (int i = 0; i < COL_BANKS * SCREEN_COUNT; ++i) h = fnv(h, P->res.col[i], COL_SIZE); out[4] = h;
	h = B; { u16 t[512]; int n = str_len(P->res.mem_ptr); for (int i = 0; i < n && i < 512; ++i) t[i] = str_at_wide(P->res.mem_ptr, i); h = fnv(h, t, 2 * n); h = fnv(h, &P->res.result, sizeof P->res.result); h = fnv(h, &P->res.visible, 1); } out[5] = h;
}
// Text of all variables that do not have their initial value (cb is called once per variable)
void sh_dump_vars(void (*cb)(const char*)){
	static char b[70000]; static char s[520];
	for (u32 i = 0; i < P->vars.vars_max; ++i){
		struct named_var* v = &P->vars.vars[i]; if (!v->type) continue;
		int nl = 0; char nm[20]; for (; nl < 16 && v->name[nl]; ++nl) nm[nl] = v->name[nl]; nm[nl] = 0;
		#define STRTXT(p_) { int n = (p_) ? (int)str_len(p_) : -1; int k = 0; for (int z = 0; z < n && z < 256; ++z){ u16 w = str_at_wide(p_, z); k += snprintf(s + k, sizeof s - k, w >= 32 && w < 127 ? "%c" : "\\%x.", w); if (k > 500) break; } s[k] = 0; }
		if (v->type == VAR_NUMBER){ if (!v->value.number) continue; snprintf(b, sizeof b, "%s=%d", nm, (int)v->value.number); cb(b); }
		else if (v->type == VAR_STRING){ if (!v->value.ptr || !str_len(v->value.ptr)) continue; STRTXT(v->value.ptr) snprintf(b, sizeof b, "%s$=%s", nm, s); cb(b); }
		else if (v->value.ptr){ u32 x = arr_size(v->value.ptr, ARR_DIM1), y = arr_size(v->value.ptr, ARR_DIM2); int k = snprintf(b, sizeof b, "%s%s[%u,%d]:", nm, v->type & VAR_STRING ? "$" : "", (unsigned)x, y == ARR_DIM2_UNUSED ? -1 : (int)y); u32 n = x * (y == ARR_DIM2_UNUSED ? 1 : y);
			for (u32 z = 0; z < n && k < 60000; ++z){ if (v->type & VAR_STRING){ void* q = arr_data(v->value.ptr)[z].ptr; if (!q || !str_len(q)) continue; STRTXT(q) k += snprintf(b + k, sizeof b - k, " %u=%s", (unsigned)z, s); } else if (arr_data(v->value.ptr)[z].number) k += snprintf(b + k, sizeof b - k, " %u=%d", (unsigned)z, (int)arr_data(v->value.ptr)[z].number); }
			cb(b); }
	}
}
// Compile and run with tables of the size the launcher computes for a program.
int sh_run_sized(const char* src, int len, int opts){
	memcpy(P->exec.prg.data, src, len); P->exec.prg.size = len;
	struct bytecode_params q = calc_min_bytecode(&P->exec.prg);
	struct bytecode bc = init_bytecode_size(2 * len, q.lines, q.labels);
	return token_and_run(P, &P->exec.prg, &bc, opts);
}
int sh_set_anum(const char* name, int x, int32_t v){
	union value* e = get_arr_entry(&P->vars, (char*)name, strlen(name), VAR_NUMBER | VAR_ARRAY, x, ARR_DIM2_UNUSED);
	if (!e) return 0;
	e->number = v; return 1;
}
uint16_t* sh_scr(int screen, int bank){ return P->res.scr[SCR_BANKS * screen + bank]; }
void sh_bg_ofs(int screen, int layer, int32_t* x, int32_t* y){ *x = P->background.ofs[screen][layer].x; *y = P->background.ofs[screen][layer].y; }
// sprite state: active chr pal w h prio flip_x flip_y home_x home_y x y angle scale shown-character move rotate scale animate(flags)
void sh_sprite(int page, int id, int o[19]){
	struct sprite_info* s = &P->sprites.info[page][id];
	int v[19] = {s->active, s->chr, s->pal, s->w, s->h, s->prio, s->flip_x, s->flip_y, s->home_x, s->home_y, s->pos.x, s->pos.y, s->angle.a, s->scale.s, get_sprite_chr(s), s->pos.time >= 0, s->angle.time >= 0, s->scale.time >= 0, s->anim.loop_forever || s->anim.loop > 0};
	memcpy(o, v, sizeof v);
}
int32_t sh_sprite_var(int page, int id, int i){ return P->sprites.info[page][id].vars[i]; }
uint8_t* sh_chr(int i){ return P->res.chr[i]; }
uint8_t* sh_col(int i){ return (uint8_t*)P->res.col[i]; }
const char* sh_prg(int* n){ *n = P->exec.prg.size; return (const char*)P->exec.prg.data; }
void sh_refresh_clear(void){ memset(P->res.regen_chr, 0, sizeof P->res.regen_chr); P->res.regen_col = false; }
int sh_refresh(int i){ return i < 0 ? P->res.regen_col : P->res.regen_chr[i]; }
// Gives a string array element a fresh dynamic string.
int sh_set_astr(const char* name, int x, const uint8_t* s, int n){
	union value* e = get_arr_entry(&P->vars, (char*)name, nlen(name), VAR_STRING | VAR_ARRAY, x, ARR_DIM2_UNUSED);
	if (!e) return 0;
	struct string* d = get_new_str(&P->strs);
	if (!d) return 0;
	struct string* old = (struct string*)e->ptr;
	if (old && old >= P->strs.strs && old < P->strs.strs + P->strs.strs_max && old->uses) old->uses--;
	d->type = STRING_CHAR; d->uses = 1; d->len = n;
	memcpy(d->ptr.s, s, n);
	e->ptr = d;
	return 1;
}
uint8_t* sh_membase(void){ return sbc_membase; }
// where a variable ('n' number, 's' string text, 'N'/'S' array block, '.' struct) or an internal structure is stored
int sh_storage(char kind, const char* name, uint8_t** at, int* size){
	*size = 0; *at = NULL;
	if (kind == '!'){
		#define SUB(n_, x_) if (!strcmp(name, n_)){ *at = (uint8_t*)&(x_); *size = sizeof(x_); return 1; }
		SUB("CONSOLE", P->console) SUB("BG", P->background) SUB("SPRITE", P->sprites) SUB("GRAPHICS", P->graphics) SUB("PANEL", P->panel) SUB("RESOURCE", P->res) SUB("INPUT", P->input) SUB("VAR", P->vars) SUB("STR", P->strs) SUB("ARRAY", P->arrs) SUB("SYSTEM", *P) SUB("EXEC", P->exec) SUB("SOURCE", P->exec.prg) SUB("BYTECODE", P->exec.code)
		return 0;
	}
	if (kind >= '0' && kind <= '3'){ *at = (uint8_t*)get_var(&P->vars, (char*)name, nlen(name), (kind & 1 ? VAR_STRING : VAR_NUMBER) | (kind >= '2' ? VAR_ARRAY : 0)); *size = sizeof(struct named_var); return 1; }
	int type = (kind == 's' || kind == 'S' ? VAR_STRING : VAR_NUMBER) | (kind == 'N' || kind == 'S' ? VAR_ARRAY : 0);
	struct named_var* v = get_var(&P->vars, (char*)name, nlen(name), type); if (!v) return 0;
	if (kind == 'n'){ *at = (uint8_t*)&v->value.number; *size = 4; }
	else if (kind == 's'){ *at = v->value.ptr ? str_at(v->value.ptr, 0) : NULL; *size = str_len(v->value.ptr); }
	else { *at = v->value.ptr; *size = arr_size(v->value.ptr, ARR_DIM1); }
	return 1;
}
int sh_mem_size(void){ return MAX_MEMORY; }
uint8_t* sh_mem_data(void){ return P->res.mem.data; }
// The wall clock of the program under test: -1 means the real one.
int64_t sh_now = -1;
time_t __real_time(time_t* t);
time_t __wrap_time(time_t* t){ if (sh_now < 0) return __real_time(t); if (t) *t = sh_now; return sh_now; }
int sh_vars_max(void){ return P->vars.vars_max; }
void sh_set_names(const char* prg, const char* pkg){ memset(P->res.prgname, 0, sizeof P->res.prgname); strncpy(P->res.prgname, prg, PRGNAME_STR_LENGTH); memset(P->res.package, 0, sizeof P->res.package); strncpy(P->res.package, pkg, PACKAGE_STR_LENGTH); }
const char* sh_prgname(void){ return P->res.prgname; }
const char* sh_package(void){ return P->res.package; }
void sh_inkey_clear(void){ P->input.current_base = P->input.current_write = 0; }

// Plain-C view of the interpreter for the property files.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { SH_NUM = 1, SH_STR = 2 };
// Fresh system (previous one is discarded). Table sizes as init_system().
void sh_new(int vars, int strs, int arrs);
void sh_new_default(void);
void sh_search_path(const char* path);
struct ptc* sh_ptc(void);
enum { SH_BLOCKS = 512 };
struct sh_block { uint8_t* p; long n; bool cleared; };
extern bool sh_raw, sh_unclear; extern struct sh_block sh_blocks[SH_BLOCKS]; extern int sh_nblocks;
uint8_t* sh_memnext(void); void sh_fill_arena(uint64_t seed);
uint8_t* sh_membase(void); int sh_mem_size(void);
// compile + run like DIRECT/RUN mode does; returns error code
int sh_run(const char* src, int len, int opts);
int sh_compile(const char* src, int len, int opts, int* bc_size); // compile only
int sh_rerun(void);   // run last compiled code again
int sh_error(void);
const char* sh_error_text(int e);
// variables
bool sh_num(const char* name, int32_t* out);       // creates when missing, like a read
int  sh_str(const char* name, uint16_t out[512]);  // length or -1
bool sh_anum(const char* name, int x, int y, int32_t* out); // y<0: 1-D
int  sh_astr(const char* name, int x, int y, uint16_t out[512]);
int  sh_dyn_used(void);          // dynamic string slots with uses > 0
int  sh_dyn_uses(void);          // sum of uses
int  sh_dyn_refs(void);          // references from variables/array elements to dynamic strings
int  sh_dyn_bad(void);           // slots whose uses differ from references; -1 none, else slot
int  sh_var_count(void);
int  sh_vars_max(void);
int  sh_str_value(const void* s, uint16_t out[512]);
int  sh_set_str(const char* name, const uint8_t* s, int n);
// console
uint16_t sh_con_char(int x, int y);
uint8_t  sh_con_col(int x, int y);
void sh_con_pos(int* x, int* y);
int sh_con_cursor(void);
void sh_test_mode(bool on);
uint16_t sh_to_wide(uint8_t c);
int sh_to_char(uint16_t w);
// graphics
uint8_t sh_grp(int page, int x, int y);
uint8_t* sh_grp_raw(int page);
// background
uint16_t sh_bg(int screen, int layer, int x, int y);
// time & input
void sh_frame(void);  // one frame as the display loop does: sprites, bg, time
void sh_inc_time(int64_t n);
void sh_set_time(int64_t t);
int64_t sh_time(void);
bool sh_inkey(uint16_t k);
void sh_inkey_clear(void);
void sh_input(int buttons);
void sh_touch(bool t, int x, int y);
void sh_break(void);
// After n debug prints (a measure of the work done) the running program is stopped with ERR_BREAK; 0: no limit.
// The same happens after ms of CPU time, for code that does not print.
void sh_limit(long n, int ms);
bool sh_limit_hit(void);
extern void (*sh_on_sleep)(void); extern long sh_sleeps;
#ifdef __cplusplus
}
#endif

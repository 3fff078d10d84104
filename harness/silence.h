// Force-included into /repo's sources: the debug build prints every step; turn
// that off (arguments are still evaluated, assertions stay active).  The calls
// count down a budget instead, so that endless programs can be stopped.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern long vf_budget; void vf_out_of_budget(void);
static inline int vf_noprintf(const char* f, ...){ (void)f; if (--vf_budget < 0) vf_out_of_budget(); return 0; }
#define printf vf_noprintf
// deterministic RND: init_system() seeds with the time of day
static inline void vf_srand(unsigned s){ (void)s; }
#define srand vf_srand

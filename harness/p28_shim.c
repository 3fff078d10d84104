// The resource converter of /repo, callable.
#define main ntr_main
int ntr_main(int argc, char** argv);
#include "ntr_to_ptc.c"
#undef main
int p28_convert(const char* in, const char* name){ char a[] = "ntr_to_ptc", b[64], c[64]; strncpy(b, in, 63); strncpy(c, name, 63); b[63] = c[63] = 0; char* argv[] = {a, b, c, NULL}; return ntr_main(3, argv); }
int p28_usage(int n){ char a[] = "ntr_to_ptc", b[] = "IN"; char* argv[] = {a, b, b, b, NULL}; argv[n] = NULL; return ntr_main(n, argv); }

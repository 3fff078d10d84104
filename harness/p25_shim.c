// The session loop of /repo and the pieces the property puts one together from.
#include "common.h"
#include "system.h"
#include "ptc.h"
#include "console.h"
#include "error.h"
#include <string.h>
struct ptc* sh_ptc(void);
#define P sh_ptc()
int sh_launch(const char* file){ struct launch_info info = {P, NULL, file}; return launch_system(&info); }
int sh_entering(void){ return P->console.cursor_visible; }
int sh_running_error(void){ return P->exec.error; }
// what main() does when the window is closed
void sh_close(void){ shutdown_system(P); }
void sh_say(const char* t){ struct string s = {.type = STRING_CHAR, .ptr.s = (u8*)t, .len = strlen(t)}; con_puts(&P->console, &s); con_newline(&P->console, true); }
void sh_set_result(int r){ P->res.result = r; }
// the text shown behind the message of the last error (and forgotten)
const char* sh_error_info(void){ static char t[64]; strncpy(t, P->exec.error_info, 63); P->exec.error_info[0] = 0; return t; }

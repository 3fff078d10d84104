#include "common.h"
#include "system.h"
#include "panel.h"
#include "ptc.h"
#include "console.h"
#include <string.h>
struct ptc* sh_ptc(void);
#define P sh_ptc()
void sh_press(int t, int x, int y){ press_key(P, t, x, y); }
// text on the panel (keys: the captions of the function keys)
int sh_pnl_char(int keys, int x, int y){ return con_text_getc(keys ? P->panel.keys_text : P->panel.text, x, y); }
int sh_pnl_col(int x, int y){ return con_col_get(P->panel.text, x, y); }
// each set of key images gets a different byte
void sh_pnl_mark(void){ for (int i = 0; i < 12; ++i) memset(P->res.key_chr[i], i + 1, CHR_SIZE); for (int i = 0; i < 2; ++i) memset(P->res.chr[18 + i + CHR_BANKS], i + 1, CHR_SIZE); }
int sh_pnl_image(int i){ uint8_t* d = P->res.chr[18 + i + CHR_BANKS]; for (int k = 1; k < CHR_SIZE; ++k) if (d[k] != d[0]) return -1; return d[0] - 1; }
const uint8_t* sh_pnl_layout(void){ return (const uint8_t*)P->res.scr[SCR_BANKS + 1]; }

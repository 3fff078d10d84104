// A software display: stands in for the window, textures and shader of CSFML (vertex arrays, views and
// transforms are the real ones) and rasterizes what /repo draws into a 256x384 picture.
#include "common.h"
#include "system.h"
#include "panel.h"
#include "ptc.h"
#include "sprites.h"
#include "console.h"
#include "background.h"
#include <SFML/Graphics.h>
#include <string.h>
#include <math.h>
struct ptc* sh_ptc(void);
#define P sh_ptc()
struct tex { int w, h; uint8_t* px; };
struct spr { struct tex* t; float x, y; };
static float u_bank; static int u_grp; static struct tex* u_colors;
uint32_t p26_fb[384][256]; int p26_shown; static float vx, vy, vw, vh, ox, oy;
void p26_shade(float bank, int grp, int red, int r, uint8_t out[4]);
static uint32_t memo[6][2][256]; static uint8_t known[6][2][256]; static struct { uint32_t c; uint8_t k; } memo2[6][16][256];
static void forget(void){ memset(known, 0, sizeof known); memset(memo2, 0, sizeof memo2); }
int p26_texel(float u, float v, uint8_t out[4]){ struct tex* t = u_colors; memset(out, 0, 4); if (!t) return 0; int x = (int)floorf(u * t->w), y = (int)floorf(v * t->h); if (x < 0) x = 0; if (y < 0) y = 0; if (x >= t->w) x = t->w - 1; if (y >= t->h) y = t->h - 1; memcpy(out, t->px + 4 * (x + y * t->w), 4); return 1; }
sfTexture* sfTexture_create(unsigned w, unsigned h){ struct tex* t = calloc(1, sizeof *t); t->w = w; t->h = h; t->px = calloc(w * h, 4); return (sfTexture*)t; }
void sfTexture_destroy(sfTexture* s){ struct tex* t = (struct tex*)s; if (!t) return; if (t == u_colors) u_colors = NULL; free(t->px); free(t); }
void sfTexture_updateFromPixels(sfTexture* s, const sfUint8* p, unsigned w, unsigned h, unsigned x, unsigned y){ struct tex* t = (struct tex*)s; for (unsigned i = 0; i < h; ++i) if (y + i < t->h) memcpy(t->px + 4 * (x + (y + i) * t->w), p + 4 * i * w, 4 * (x + w > t->w ? t->w - x : w)); if (t == u_colors) forget(); }
sfSprite* sfSprite_create(void){ return calloc(1, sizeof(struct spr)); }
void sfSprite_destroy(sfSprite* s){ free(s); }
void sfSprite_setTexture(sfSprite* s, const sfTexture* t, sfBool reset){ (void)reset; ((struct spr*)s)->t = (struct tex*)t; }
void sfSprite_setPosition(sfSprite* s, sfVector2f p){ ((struct spr*)s)->x = p.x; ((struct spr*)s)->y = p.y; }
sfBool sfShader_isAvailable(void){ return 1; }
sfShader* sfShader_createFromFile(const char* a, const char* b, const char* c){ (void)a; (void)b; (void)c; return (sfShader*)calloc(1, 16); }
void sfShader_destroy(sfShader* s){ free(s); }
void sfShader_setFloatUniform(sfShader* s, const char* n, float v){ (void)s; if (!strcmp(n, "colbank")) u_bank = v; }
void sfShader_setBoolUniform(sfShader* s, const char* n, sfBool v){ (void)s; if (!strcmp(n, "grp_mode")) u_grp = v; }
void sfShader_setIntUniform(sfShader* s, const char* n, int v){ sfShader_setBoolUniform(s, n, v != 0); }
void sfShader_setTextureUniform(sfShader* s, const char* n, const sfTexture* t){ (void)s; if (!strcmp(n, "colors") && (struct tex*)t != u_colors){ u_colors = (struct tex*)t; } forget(); }
void sfShader_setCurrentTextureUniform(sfShader* s, const char* n){ (void)s; (void)n; }
void sfRenderWindow_clear(sfRenderWindow* w, sfColor c){ (void)w; for (int i = 0; i < 384; ++i) for (int j = 0; j < 256; ++j) p26_fb[i][j] = c.r | c.g << 8 | c.b << 16; forget(); }
void sfRenderWindow_setView(sfRenderWindow* w, const sfView* v){ (void)w; sfFloatRect r = sfView_getViewport(v); sfVector2f c = sfView_getCenter(v), s = sfView_getSize(v); vx = r.left * 256; vy = r.top * 384; vw = r.width * 256; vh = r.height * 384; ox = c.x - s.x / 2; oy = c.y - s.y / 2; if (s.x != vw || s.y != vh) abort(); }
void sfRenderWindow_display(sfRenderWindow* w){ (void)w; ++p26_shown; }
static inline void put(int x, int y, int red, int r){
	uint32_t c; int b = (int)(u_bank + 0.5f); if (b < 0 || b > 5) b = 5;
	if (u_bank == b && (u_grp || red % 16 == 0)){
		if (u_grp){ if (!known[b][1][r]){ uint8_t o[4]; p26_shade(u_bank, 1, red, r, o); memcpy(&memo[b][1][r], o, 4); known[b][1][r] = 1; } c = memo[b][1][r]; }
		else { if (!memo2[b][red / 16][r].k){ uint8_t o[4]; p26_shade(u_bank, 0, red, r, o); memcpy(&memo2[b][red / 16][r].c, o, 4); memo2[b][red / 16][r].k = 1; } c = memo2[b][red / 16][r].c; }
	} else { uint8_t o[4]; p26_shade(u_bank, u_grp, red, r, o); memcpy(&c, o, 4); }
	if (c >> 24 >= 128) p26_fb[y][x] = c & 0xffffff;
}
struct vtx { float x, y, u, v; };
static void quad(const struct vtx q[4], int red, const struct tex* t){
	float x0 = q[0].x, x1 = x0, y0 = q[0].y, y1 = y0; for (int i = 1; i < 4; ++i){ if (q[i].x < x0) x0 = q[i].x; if (q[i].x > x1) x1 = q[i].x; if (q[i].y < y0) y0 = q[i].y; if (q[i].y > y1) y1 = q[i].y; }
	if (x1 <= vx || y1 <= vy || x0 >= vx + vw || y0 >= vy + vh) return; // (pixel x is sampled at x+0.5)
	int l = (int)ceilf(x0 - 0.5f), r = (int)floorf(x1 - 0.5f), a = (int)ceilf(y0 - 0.5f), b = (int)floorf(y1 - 0.5f);
	if (l < vx) l = (int)vx; if (a < vy) a = (int)vy; if (r >= vx + vw) r = (int)(vx + vw) - 1; if (b >= vy + vh) b = (int)(vy + vh) - 1;
	float u0 = fminf(q[0].u, q[2].u), u1 = fmaxf(q[0].u, q[2].u), v0 = fminf(q[0].v, q[2].v), v1 = fmaxf(q[0].v, q[2].v);
	static const int T[2][3] = {{0, 1, 2}, {0, 2, 3}};
	for (int y = a; y <= b; ++y) for (int x = l; x <= r; ++x){
		float px = x + 0.5f, py = y + 0.5f;
		for (int k = 0; k < 2; ++k){
			const struct vtx *A = &q[T[k][0]], *B = &q[T[k][1]], *C = &q[T[k][2]];
			float d = (B->x - A->x) * (C->y - A->y) - (C->x - A->x) * (B->y - A->y); if (d == 0) continue;
			float wb = ((px - A->x) * (C->y - A->y) - (C->x - A->x) * (py - A->y)) / d, wc = ((B->x - A->x) * (py - A->y) - (px - A->x) * (B->y - A->y)) / d;
			if (wb < 0 || wc < 0 || wb + wc > 1) continue;
			float u = A->u + wb * (B->u - A->u) + wc * (C->u - A->u), v = A->v + wb * (B->v - A->v) + wc * (C->v - A->v);
			// (on an edge, rounding must not reach the texels beside the quad's part of the texture)
			u = fminf(fmaxf(u, u0), u1 - 0.01f); v = fminf(fmaxf(v, v0), v1 - 0.01f);
			int tx = (int)floorf(u), ty = (int)floorf(v); if (tx < 0) tx = 0; if (ty < 0) ty = 0; if (tx >= t->w) tx = t->w - 1; if (ty >= t->h) ty = t->h - 1;
			put(x, y, red, t->px[4 * (tx + ty * t->w)]); break;
		}
	}
}
void sfRenderWindow_drawVertexArray(sfRenderWindow* w, const sfVertexArray* va, const sfRenderStates* st){
	(void)w; size_t n = sfVertexArray_getVertexCount(va); if (sfVertexArray_getPrimitiveType((sfVertexArray*)va) != sfQuads) abort(); const float* m = st->transform.matrix; const struct tex* t = (const struct tex*)st->texture; if (!t) return;
	for (size_t i = 0; i + 3 < n; i += 4){
		const sfVertex* s = sfVertexArray_getVertex((sfVertexArray*)va, i); struct vtx q[4]; bool axis = m[0] == 1 && m[1] == 0 && m[3] == 0 && m[4] == 1;
		for (int k = 0; k < 4; ++k){ q[k].x = m[0] * s[k].position.x + m[1] * s[k].position.y + m[2] - ox + vx; q[k].y = m[3] * s[k].position.x + m[4] * s[k].position.y + m[5] - oy + vy; q[k].u = s[k].texCoords.x; q[k].v = s[k].texCoords.y; }
		int red = s[0].color.r;
		// fast path: an 8x8 tile at whole pixels
		if (axis && q[0].x == floorf(q[0].x) && q[0].y == floorf(q[0].y) && q[1].y == q[0].y && q[2].x == q[1].x && q[3].x == q[0].x && q[3].y == q[2].y && fabsf(q[1].x - q[0].x) == 8 && fabsf(q[3].y - q[0].y) == 8 && fabsf(q[1].u - q[0].u) == 8 && fabsf(q[3].v - q[0].v) == 8 && q[1].v == q[0].v && q[2].u == q[1].u && q[3].u == q[0].u && q[2].v == q[3].v){
			if (q[0].x > q[1].x + 0) { struct vtx z = q[0]; q[0] = q[1]; q[1] = z; z = q[3]; q[3] = q[2]; q[2] = z; } if (q[0].y > q[3].y){ struct vtx z = q[0]; q[0] = q[3]; q[3] = z; z = q[1]; q[1] = q[2]; q[2] = z; }
			if (q[0].x >= vx + vw || q[0].y >= vy + vh || q[0].x <= vx - 8 || q[0].y <= vy - 8) continue;
			int X = (int)q[0].x, Y = (int)q[0].y, U = (int)(q[0].u < q[1].u ? q[0].u : q[1].u), V = (int)(q[0].v < q[3].v ? q[0].v : q[3].v), fx = q[1].u < q[0].u, fy = q[3].v < q[0].v;
			for (int y = 0; y < 8; ++y){ if (Y + y < vy || Y + y >= vy + vh) continue; int ty = V + (fy ? 7 - y : y); if (ty >= t->h) ty = t->h - 1; for (int x = 0; x < 8; ++x){ if (X + x < vx || X + x >= vx + vw) continue; int tx = U + (fx ? 7 - x : x); if (tx >= t->w) tx = t->w - 1; put(X + x, Y + y, red, t->px[4 * (tx + ty * t->w)]); } }
			continue;
		}
		quad(q, red, t);
	}
}
void sfRenderWindow_drawSprite(sfRenderWindow* w, const sfSprite* sp, const sfRenderStates* st){
	(void)w; const struct spr* s = (const struct spr*)sp; const float* m = st->transform.matrix; const struct tex* t = s->t; struct vtx q[4] = {{0, 0, 0, 0}, {t->w, 0, t->w, 0}, {t->w, t->h, t->w, t->h}, {0, t->h, 0, t->h}};
	for (int k = 0; k < 4; ++k){ float x = q[k].x + s->x, y = q[k].y + s->y; q[k].x = m[0] * x + m[1] * y + m[2] - ox + vx; q[k].y = m[3] * x + m[4] * y + m[5] - oy + vy; }
	if (q[0].x == vx && q[0].y == vy && q[2].x == vx + t->w && q[2].y == vy + t->h && t->w == vw && t->h == vh){ for (int y = 0; y < t->h; ++y) for (int x = 0; x < t->w; ++x) put((int)vx + x, (int)vy + y, 255, t->px[4 * (x + y * t->w)]); return; }
	quad(q, 255, t);
}
// ---- used by the property
void sh_display(int on){ if (on){ init_display(P); P->display.rw = (sfRenderWindow*)&p26_fb; } else { free_display(&P->display); memset(&P->display, 0, sizeof P->display); } }
void sh_draw(void){ display_draw_all(P); }
void sh_mark_redraw(void){ memset(P->res.regen_chr, 1, sizeof P->res.regen_chr); P->res.regen_col = true; }
int sh_panel_state(int i){ return i == 0 ? P->panel.type : i == 1 ? P->panel.key_pressed : P->console.cursor_visible; }
int sh_key_count(int icons){ return icons ? ICON_KEYS : KEYBOARD_KEYS; }
void sh_key(int icons, int i, int o[8]){ struct sprite_info* s = &P->panel.keys[icons ? ICON_PAGE_START + i : i]; int v[8] = {s->active, s->pos.x >> FIXPOINT, s->pos.y >> FIXPOINT, s->w, s->h, s->chr, s->pal, s->vars[0]}; memcpy(o, v, sizeof v); }
int sh_pnl_text(int keys, int x, int y){ return con_text_getc(keys ? P->panel.keys_text : P->panel.text, x, y); }
int sh_pnl_color(int keys, int x, int y){ return con_col_get(keys ? P->panel.keys_text : P->panel.text, x, y) & 15; }
void sh_press(int t, int x, int y){ press_key(P, t, x, y); }

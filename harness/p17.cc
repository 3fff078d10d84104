// P17: compression round trips for every cache size and for the automatic choice.
#include "model.h"
#include <cstdlib>
#include <unistd.h>
extern "C" { 
#include "extension/compress.h"
uint8_t* sh_chr(int); uint8_t* sh_col(int); }
namespace {
typedef std::vector<uint8_t> V;
struct Exact { uint8_t* p; Exact(size_t n, int fill = 0xA5){ p = (uint8_t*)malloc(n ? n : 1); memset(p, fill, n ? n : 1); } ~Exact(){ free(p); } };
V gen_data(G& g, std::string& d){
	static const int sz[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 127, 128, 129, 255, 256, 257, 512, 516, 8192};
	int n = g.weighted({4, 5, 4, 1}); n = n == 0 ? g.range(0, 40) : n == 1 ? sz[g.below(20)] : n == 2 ? g.range(0, 1200) : g.range(0, 60000);
	V v; uint64_t r = g.bits() | 1; auto rnd = [&](uint32_t m){ r = r * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(r >> 33) % m; }; int runs = 0;
	for (int k = 0; (int)v.size() < n; ++k){ // a sequence of stretches of different character
		int len = g.chance(1, 2) ? n - v.size() : g.range(1, n - v.size()); if (k > 20) len = n - v.size(); int st = g.below(8); uint8_t b = g.chance(1, 3) ? 0 : g.below(256); int m = 1 << g.below(8); if (g.chance(1, 2)) m += g.pick({-1, 1}); if (m < 1) m = 1; ++runs; if (k < 6) d += strf(" %d x style %d (%d from %d)", len, st, m, b);
		for (int i = 0; i < len; ++i) v.push_back(st == 0 ? b : st == 1 ? (uint8_t)rnd(256) : st == 2 ? (uint8_t)(b + i % m) : st == 3 ? (uint8_t)(b + rnd(m)) : st == 4 ? (rnd(m + 1) ? b : (uint8_t)rnd(256)) : st == 5 ? (uint8_t)(b + i / m) : st == 6 ? (uint8_t)(b + 37 * (i % m)) : (uint8_t)(i & 1 ? b : rnd(m)));
	}
	return v;
}
void run_case(G& g, Case& c){
	std::string d; V v = gen_data(g, d); int n = v.size(); d = strf("%d bytes:", n) + d + ":"; for (int i = 0; i < n && i < 64; ++i) d += strf(" %02x", v[i]); c.text = d; note_text(d);
	Exact src(n); if (n) memcpy(src.p, v.data(), n); int best = n, shrunk = 0;
	for (int bits = -1; bits < 8; ++bits){
		Exact out(n); int r = sbc_compress(src.p, out.p, n, bits, 8); if (n && memcmp(src.p, v.data(), n)) c.fail("compressing with %d cache bits changed the source", bits);
		if (r < 0){ if (bits < 0) c.fail("storing fails"); continue; }
		if (r > n) c.fail("%d cache bits: reports %d bytes for %d", bits, r, n);
		++shrunk; if (r < best) best = r; Exact in(r), dst(n, 0x3C); if (r) memcpy(in.p, out.p, r); uint8_t* q = sbc_decompress(in.p, dst.p, n, bits); if (q != dst.p) c.fail("%d cache bits: decompression returns another place", bits);
		for (int i = 0; i < n; ++i) if (dst.p[i] != v[i]) c.fail("%d cache bits: byte %d of %d is %02x after compression to %d bytes and decompression, was %02x", bits, i, n, dst.p[i], r, v[i]);
	}
	sbc_compression_result o = sbc_optimal_compress(src.p, n, 8); if (n && memcmp(src.p, v.data(), n)) c.fail("automatic compression changed the source");
	if (o.size > n || o.size < 0) c.fail("automatic choice has %d bytes for %d", o.size, n); if (o.size > best) c.fail("automatic choice (%d cache bits) has %d bytes, another setting %d", o.bits, o.size, best); if (o.bits < -1 || o.bits > 7) c.fail("automatic choice of %d cache bits", o.bits);
	{ Exact in(o.size), dst(n, 0x3C); if (o.size) memcpy(in.p, o.output, o.size); sbc_decompress(in.p, dst.p, n, o.bits); for (int i = 0; i < n; ++i) if (dst.p[i] != v[i]) c.fail("automatic choice (%d cache bits): byte %d of %d is %02x, was %02x", o.bits, i, n, dst.p[i], v[i]); }
	// as a resource file
	if (n == 512 || n == 8192 || g.chance(1, 40)){
		int type = n == 512 ? 1 : 0, size = type ? 512 : 8192; std::string dir = strf("w%d/", (int)getpid()); static std::string path; path = dir; if (access(dir.c_str(), F_OK)) if (system(("mkdir " + dir).c_str())) abort();
		sh_new(16, 64, 256); sh_search_path(path.c_str()); V w = v; w.resize(size, 7); Exact s2(size); memcpy(s2.p, w.data(), size); sbc_compression_result z = sbc_optimal_compress(s2.p, size, 8);
		FILE* f = fopen((dir + "Z.PTC").c_str(), "wb"); uint8_t h[8] = {'S', 'B', 'C', 'C', (uint8_t)z.bits, (uint8_t)size, (uint8_t)(size >> 8), (uint8_t)(size >> 16)}; fwrite(h, 1, 8, f); fwrite(z.output, 1, z.size, f); fclose(f); free(z.output);
		int e = run_prog(type ? "LOAD\"COL1L:Z\":R=RESULT\r" : "LOAD\"SPS1L:Z\":R=RESULT\r"); fx R = get_num("R"); if (e || R != 4096) c.fail("loading the compressed file of %d bytes ends with %s, RESULT %s", size, err_name(e).c_str(), fxs(R).c_str());
		const uint8_t* q = type ? sh_col(4) : sh_chr(43); if (memcmp(q, w.data(), size)) c.fail("the compressed file of %d bytes loads other data", size); c.label("loaded as a resource file");
	}
	c.label(o.bits < 0 ? "automatic choice: stored" : strf("automatic choice: %d cache bits", o.bits)); free(o.output); c.label("round trips", shrunk + 1); c.nontrivial(n >= 2 && shrunk >= 2);
}
}
const Prop the_prop = {"P17", run_case, 40000, 2000000,
	"One case = up to 60000 bytes made of stretches of constant, random, counting, repeating and mixed data with alphabets around the cache sizes. Compressed with every cache size (-1..7 bits) into a buffer of the source size and decompressed from a buffer of exactly the reported size (AddressSanitizer watches both); the automatic choice is compared with the best setting; some are loaded as compressed resource files. Non-trivial: at least 2 bytes and at least one setting that compresses.", nullptr};

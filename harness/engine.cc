#include "engine.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unordered_set>
#include <fstream>
#include <sstream>

std::string strf(const char* fmt, ...){
	va_list ap; va_start(ap, fmt);
	char* p = nullptr; int n = vasprintf(&p, fmt, ap); va_end(ap);
	std::string s(p, n); free(p); return s;
}
void Case::fail(const char* fmt, ...){
	va_list ap; va_start(ap, fmt);
	char* p = nullptr; int n = vasprintf(&p, fmt, ap); va_end(ap);
	std::string s(p, n); free(p);
	throw Failure{s};
}
static u64_ mix(u64_ x){
	x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
u32_ G::raw(){ s += 0x9e3779b97f4a7c15ull; return (u32_)(mix(s) >> 16); }
u32_ G::below(u32_ n){
	u32_ v;
	if (n == 1) return 0;
	if (rep){
		v = pos < rep->size() ? (*rep)[pos] : 0;
		if (n && v >= n) v = n - 1;
	} else v = n ? (u32_)(((u64_)raw() * n) >> 32) : raw();
	pos++;
	if (*rec_n < rec_max) rec[(*rec_n)++] = v;
	return v;
}
int G::weighted(std::initializer_list<int> w){
	int tot = 0; for (int x : w) tot += x;
	int v = (int)below(tot), i = 0;
	for (int x : w){ if (v < x) return i; v -= x; ++i; }
	return 0;
}
__attribute__((weak)) std::vector<std::vector<u32_>> regression_tapes(){ return {}; }
__attribute__((weak)) void prop_process_init(){}
__attribute__((weak)) std::vector<std::string> prop_known_findings(){ return {}; }

enum { TAPE_MAX = 1 << 20, TEXT_MAX = 1 << 18, MSG_MAX = 4096, MARK_MAX = 4096 };
struct Slot { // shared between a worker and the parent
	volatile u64_ idx; volatile u64_ done; volatile int in_case; volatile int failed; volatile u32_ tape_n; volatile u32_ marks_n; u32_ marks[MARK_MAX];
	char msg[MSG_MAX]; char text[TEXT_MAX]; u32_ tape[TAPE_MAX];
};
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64_ g_seed; static double g_cpu_limit = 20;
static u64_ hash_str(const std::string& s){ u64_ h = 1469598103934665603ull; for (unsigned char c : s){ h ^= c; h *= 1099511628211ull; } return h; }

static void arm(double sec){
	struct itimerval it = {}; it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
	setitimer(ITIMER_PROF, &it, nullptr);
}
// Runs one case in this process.  Returns true if the property held.
static bool run_one(Slot* sl, const std::vector<u32_>* rep, u64_ idx, Case& c){
	u32_ n = 0; sl->tape_n = 0;
	G g; g.s = mix(mix(g_seed * 1000003 + hash_str(the_prop.id)) + idx * 0x9e3779b97f4a7c15ull); g.rep = rep; g.pos = 0;
	g.rec = sl->tape; g.rec_max = TAPE_MAX; g.rec_n = (u32_*)&sl->tape_n; (void)n;
	sl->marks_n = 0; g.mk = sl->marks; g.mk_max = MARK_MAX; g.mk_n = (u32_*)&sl->marks_n;
	sl->text[0] = 0; sl->msg[0] = 0;
	sl->in_case = 1;
	bool ok = true;
	// the properties about storage: every file is closed again
	static const bool files = strstr("P16 P22 P23 P25", the_prop.id); auto lowest = []{ int fd = open("/dev/null", O_RDONLY); if (fd >= 0) close(fd); return fd; };
	int before = files ? lowest() : 0;
	try { the_prop.run(g, c); if (files && lowest() > before) c.fail("a file stays open"); }
	catch (Failure& f){ ok = false; snprintf(sl->msg, MSG_MAX, "%s", f.msg.c_str()); }
	size_t l = std::min(c.text.size(), (size_t)TEXT_MAX - 1); memcpy(sl->text, c.text.data(), l); sl->text[l] = 0;
	sl->in_case = 0;
	return ok;
}
static Slot* g_cur_slot;
// Property files call this before executing, so that a crash still has a description.
void note_text(const std::string& t){
	if (!g_cur_slot) return;
	size_t l = std::min(t.size(), (size_t)TEXT_MAX - 1); memcpy(g_cur_slot->text, t.data(), l); g_cur_slot->text[l] = 0;
}
static void child_setup(const std::string& errfile, int memlimit_mb){
	(void)memlimit_mb;
	int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1);
	int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0){ dup2(e, 2); close(e); }
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	rl = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &rl); signal(SIGXFSZ, SIG_IGN);
	prop_process_init();
}
static std::string slurp(const std::string& f, size_t max = 1 << 20){
	std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); std::string r = s.str(); if (r.size() > max) r.resize(max); return r;
}
static std::string crash_msg(int st, const std::string& errfile){
	std::string e = slurp(errfile), m;
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return "HANG: no result within the CPU limit";
	size_t p;
	for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "Assertion `", "SUMMARY:"})
		if ((p = e.find(k)) != std::string::npos){
			size_t b = e.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t q = e.find('\n', p);
			m = e.substr(b, q - b);
			size_t s = e.find("SUMMARY:", q == std::string::npos ? p : q);
			if (s != std::string::npos) m += " | " + e.substr(s, e.find('\n', s) - s);
			break;
		}
	if (m.empty()) m = e.substr(0, 300);
	if (WIFSIGNALED(st)) return strf("CRASH: signal %d: %s", WTERMSIG(st), m.c_str());
	return strf("CRASH: exit %d: %s", WEXITSTATUS(st), m.c_str());
}
struct Result { bool ok; std::string msg, text; std::vector<u32_> tape; bool hang = false; std::vector<u32_> marks; };
static std::string g_tmp;
// Runs one tape (or seed index) in a forked child.
// With first != idx the cases first, first+step, .. idx run one after another in
// the child (for failures that depend on state left by earlier cases).
static Result exec_forked(Slot* sl, const std::vector<u32_>* rep, u64_ idx, double cpu, u64_ first = (u64_)-1, u64_ step = 1){
	if (first == (u64_)-1) first = idx;
	std::string err = g_tmp + "/err.x";
	sl->failed = 0; sl->tape_n = 0; sl->msg[0] = 0; sl->text[0] = 0;
	pid_t pid = fork();
	if (pid == 0){
		g_cur_slot = sl;
		child_setup(err, 0);
		for (u64_ i = first; i < idx; i += step){ Case c; c.counts = nullptr; arm(cpu); if (!run_one(sl, rep, i, c)) _exit(3); }
		arm(cpu);
		Case c; c.counts = nullptr;
		bool ok = run_one(sl, rep, idx, c);
		_exit(ok ? 0 : 3);
	}
	int st = 0; double t0 = now(); bool killed = false;
	for (;;){
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		double el = now() - t0;
		if (el > cpu * 6 + 60 + (first != idx ? 600 : 0)){ kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
		usleep(el < 0.05 ? 300 : 3000);
	}
	Result r; r.text = sl->text; r.tape.assign(sl->tape, sl->tape + sl->tape_n); r.marks.assign(sl->marks, sl->marks + sl->marks_n); r.marks.push_back((u32_)sl->tape_n);
	if (killed){ r.ok = false; r.hang = true; r.msg = "HANG: no result (blocked)"; return r; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0){ r.ok = true; return r; }
	r.ok = false;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) r.msg = sl->msg;
	else { r.msg = crash_msg(st, err); r.hang = r.msg.compare(0, 4, "HANG") == 0; }
	return r;
}
static std::string kind(const std::string& m){ // failures shrink within their kind
	if (m.compare(0, 5, "CRASH") == 0) return "CRASH";
	if (m.compare(0, 4, "HANG") == 0) return "HANG";
	return "MISMATCH";
}
static Result shrink(Slot* sl, Result best, double budget, double cpu){
	double t0 = now(); int evals = 0; std::string k = kind(best.msg);
	std::set<std::string> seen;
	auto attempt = [&](const std::vector<u32_>& t) -> bool {
		if (now() - t0 > budget) return false;
		std::string key((const char*)t.data(), t.size() * 4);
		if (!seen.insert(key).second) return false;
		++evals;
		Result r = exec_forked(sl, &t, 0, cpu);
		if (r.ok || kind(r.msg) != k) return false;
		// accept only if the realised tape is simpler
		if (r.tape.size() > best.tape.size()) return false;
		if (r.tape.size() == best.tape.size() && !(r.tape < best.tape)) return false;
		best = r; return true;
	};
	bool progress = true;
	while (progress && now() - t0 < budget){
		progress = false;
		// whole list items, from long runs of them down to single ones
		for (size_t len = 64; len >= 1; len /= 2)
			for (size_t i = 0; i + len < best.marks.size() && now() - t0 < budget; ){
				u32_ b = best.marks[i], e = best.marks[i + len];
				if (b < e && e <= best.tape.size()){
					std::vector<u32_> t = best.tape; t.erase(t.begin() + b, t.begin() + e);
					if (attempt(t)){ progress = true; continue; }
				}
				++i;
			}
		for (size_t len = std::max<size_t>(best.tape.size() / 2, 1); len >= 1; len /= 2){
			for (size_t i = best.tape.size(); i >= len && i != (size_t)-1 && now() - t0 < budget; ){
				size_t b = i - len;
				if (b + len > best.tape.size()){ i = best.tape.size(); if (i < len) break; b = i - len; }
				std::vector<u32_> t = best.tape; t.erase(t.begin() + b, t.begin() + b + len);
				if (attempt(t)){ progress = true; i = std::min(i, best.tape.size()); continue; }
				if (len > 1 && len <= 64){ // zero block
					t = best.tape; bool nz = false; for (size_t j = b; j < b + len; ++j){ nz |= t[j] != 0; t[j] = 0; }
					if (nz && attempt(t)) progress = true;
				}
				if (i == len) break;
				i = i > len ? i - std::max<size_t>(len / 2, 1) : len; if (i < len) i = len;
			}
			if (len == 1) break;
		}
		for (size_t i = 0; i < best.tape.size() && now() - t0 < budget; ++i){
			u32_ v = best.tape[i]; if (!v) continue;
			auto with = [&](u32_ x){ std::vector<u32_> t = best.tape; if (i >= t.size()) return false; t[i] = x; return attempt(t); };
			if (with(0)){ progress = true; continue; }
			u32_ lo = 0, hi = v;
			while (lo + 1 < hi && now() - t0 < budget){
				u32_ mid = lo + (hi - lo) / 2;
				if (with(mid)){ hi = mid; progress = true; } else lo = mid;
				if (i >= best.tape.size()) break;
			}
			if (i < best.tape.size() && best.tape[i] && i + 1 < best.tape.size()){ // delete pair with decrement
				std::vector<u32_> t = best.tape; t[i]--; t.erase(t.begin() + i + 1);
				if (attempt(t)) progress = true;
			}
		}
	}
	(void)evals;
	return best;
}
static std::string json_str(const std::string& s){
	std::string o = "\"";
	for (unsigned char c : s){
		if (c == '"' || c == '\\'){ o += '\\'; o += c; }
		else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
		else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}
static std::vector<u32_> load_tape(const char* f){
	std::ifstream i(f); std::string line; std::vector<u32_> t;
	while (std::getline(i, line)) if (line.compare(0, 5, "tape:") == 0){ std::stringstream s(line.substr(5)); u32_ v; while (s >> v) t.push_back(v); }
	return t;
}
int main(int argc, char** argv){
	std::string tier = "quick", evid, repdir = ".", replay, tmp = "/tmp"; g_seed = 1; u64_ ncases = 0; int jobs = 8; double wallcap = 0; long dump = -1;
	for (int i = 1; i < argc; ++i){
		std::string a = argv[i]; auto nx = [&]{ return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--evidence") evid = nx(); else if (a == "--replaydir") repdir = nx();
		else if (a == "--replay") replay = nx(); else if (a == "--tmp") tmp = nx();
		else if (a == "--cases") ncases = strtoull(nx().c_str(), 0, 10); else if (a == "--jobs") jobs = atoi(nx().c_str());
		else if (a == "--wallcap") wallcap = atof(nx().c_str()); else if (a == "--dump") dump = atol(nx().c_str());
	}
	g_tmp = tmp;
	double T0 = now();
	if (!ncases) ncases = tier == "thorough" ? the_prop.thorough : the_prop.quick;
	if (!wallcap) wallcap = tier == "thorough" ? 3 * 3600 : 420;
	Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Slot* xs = &slots[jobs];
	if (dump >= 0){ // development aid: show some generated cases
		for (long i = 0; i < dump; ++i){ Result r = exec_forked(xs, nullptr, i, g_cpu_limit); printf("--- case %ld %s\n%s\n", i, r.ok ? "ok" : r.msg.c_str(), r.text.c_str()); for (auto& c : r.text) (void)c; }
		return 0;
	}
	if (!replay.empty()){
		std::vector<u32_> t = load_tape(replay.c_str());
		std::string all = slurp(replay); size_t sq = all.find("\nsequence: ");
		unsigned long long a, b, c; int d; Result r;
		if (sq != std::string::npos && sscanf(all.c_str() + sq, "\nsequence: %llu %llu %llu %d", &a, &b, &c, &d) == 4){
			g_seed = a; r = exec_forked(xs, nullptr, c, g_cpu_limit, b, d);
		} else r = exec_forked(xs, &t, 0, g_cpu_limit);
		printf("%s\n%s\n%s\n", r.ok ? "HOLDS" : "FAILS", r.msg.c_str(), r.text.c_str());
		if (!r.ok) printf("VIOLATION property=%s replay=%s\n", the_prop.id, replay.c_str());
		return r.ok ? 0 : 1;
	}
	std::vector<std::vector<u32_>> regs = regression_tapes();
	std::vector<pid_t> pids(jobs); std::vector<double> last(jobs); std::vector<u64_> lastidx(jobs);
	auto statfile = [&](int w){ return strf("%s/stat.%d", tmp.c_str(), w); };
	auto errfile = [&](int w){ return strf("%s/err.%d", tmp.c_str(), w); };
	for (int w = 0; w < jobs; ++w){
		slots[w].idx = 0; slots[w].failed = 0; slots[w].in_case = 0; slots[w].done = 0;
		pid_t pid = fork();
		if (pid == 0){
			Slot* sl = &slots[w]; g_cur_slot = sl;
			child_setup(errfile(w), 0);
			std::map<std::string,u64_> counts; std::unordered_set<u64_> distinct; std::vector<std::string> samples; u64_ evals = 0;
			int rc = 0;
			for (u64_ i = w; i < ncases; i += jobs){
				if (now() - T0 > wallcap) break;
				sl->idx = i; arm(g_cpu_limit);
				Case c; c.counts = &counts;
				bool ok = run_one(sl, nullptr, i, c);
				++evals; sl->done = evals;
				if (c.nontriv && distinct.insert(hash_str(c.text)).second && samples.size() < 4 && (distinct.size() % 13 == 1) && c.text.size() < 3000) samples.push_back(c.text);
				if (!ok){ sl->failed = 1; rc = 3; break; }
			}
			FILE* f = fopen(statfile(w).c_str(), "wb");
			fprintf(f, "%llu %zu %zu %zu\n", (unsigned long long)evals, counts.size(), distinct.size(), samples.size());
			for (auto& kv : counts) fprintf(f, "%llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
			for (u64_ h : distinct) fprintf(f, "%llu\n", (unsigned long long)h);
			for (auto& s : samples){ fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
			fclose(f);
			_exit(rc);
		}
		pids[w] = pid; last[w] = now(); lastidx[w] = (u64_)-1;
	}
	int alive = jobs; int failed = -1; int fstat = 0; bool blocked = false;
	while (alive && failed < 0){
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0){
			for (int w = 0; w < jobs; ++w) if (pids[w] == p){
				pids[w] = 0; --alive;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)){ failed = w; fstat = st; }
			}
			continue;
		}
		for (int w = 0; w < jobs; ++w) if (pids[w]){
			u64_ k = slots[w].done; if (k != lastidx[w]){ lastidx[w] = k; last[w] = now(); }
			else if (slots[w].in_case && now() - last[w] > 150){ failed = w; blocked = true; break; }
		}
		usleep(5000);
	}
	for (int w = 0; w < jobs; ++w) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); }
	u64_ evals = 0; std::map<std::string,u64_> counts; std::unordered_set<u64_> distinct; std::vector<std::string> samples;
	for (int w = 0; w < jobs; ++w){
		std::ifstream f(statfile(w), std::ios::binary); u64_ e, a, b, c;
		if (!(f >> e >> a >> b >> c)){ evals += slots[w].done; continue; }
		evals += e; std::string nm;
		for (u64_ i = 0; i < a; ++i){ u64_ n; f >> n; f.get(); std::getline(f, nm); counts[nm] += n; }
		for (u64_ i = 0; i < b; ++i){ u64_ h; f >> h; distinct.insert(h); }
		for (u64_ i = 0; i < c; ++i){ size_t n; f >> n; f.get(); std::string s(n, 0); f.read(&s[0], n); f.get(); samples.push_back(s); }
	}
	bool violation = false; std::string rp, vmsg; int flaky = 0;
	if (failed >= 0){
		u64_ idx = slots[failed].idx;
		if (!slots[failed].failed && !blocked && !slots[failed].in_case){
			fprintf(stderr, "engine: worker died outside a case (status %x): %s\n", fstat, crash_msg(fstat, errfile(failed)).c_str());
			return 2;
		}
		// reproduce from the seed, in a fresh process
		Result r; bool rep = false; std::vector<u32_> wt(slots[failed].tape, slots[failed].tape + slots[failed].tape_n);
		std::string wmsg = slots[failed].failed ? std::string(slots[failed].msg) : blocked ? "HANG: blocked" : crash_msg(fstat, errfile(failed));
		for (int i = 0; i < 3 && !rep; ++i){ r = exec_forked(xs, nullptr, idx, g_cpu_limit); rep = !r.ok; }
		if (!rep){ // depends on earlier cases of the same worker?
			u64_ found = (u64_)-1;
			for (u64_ k = 1; found == (u64_)-1; k *= 8){
				u64_ first = idx >= k * jobs ? idx - k * jobs : (u64_)failed;
				r = exec_forked(xs, nullptr, idx, g_cpu_limit, first, jobs);
				if (!r.ok) found = first;
				if (first == (u64_)failed) break;
			}
			int bad = 0;
			if (found != (u64_)-1) for (int i = 0; i < 2; ++i) bad += !exec_forked(xs, nullptr, idx, g_cpu_limit, found, jobs).ok;
			if (bad == 2){
				violation = true; vmsg = r.msg;
				mkdir(repdir.c_str(), 0777);
				rp = strf("%s/%s-seq%llu.txt", repdir.c_str(), the_prop.id, (unsigned long long)idx);
				FILE* f = fopen(rp.c_str(), "wb");
				fprintf(f, "property: %s\nmessage: %s\nsequence: %llu %llu %llu %d\n---- last case (fails only after the earlier ones)\n%s\n", the_prop.id, r.msg.c_str(), (unsigned long long)g_seed, (unsigned long long)found, (unsigned long long)idx, jobs, r.text.c_str());
				fclose(f);
			} else {
				fprintf(stderr, "engine: case %llu failed once but does not reproduce: %s\n", (unsigned long long)idx, wmsg.c_str());
				flaky = 1;
			}
		} else {
			double cpu = r.hang ? 6 : g_cpu_limit;
			Result best = shrink(xs, r, r.hang ? 60 : 45, cpu);
			int bad = 0; for (int i = 0; i < 3; ++i){ Result q = exec_forked(xs, &best.tape, 0, g_cpu_limit); if (!q.ok){ ++bad; best.msg = q.msg; best.text = q.text; } }
			if (bad < 3){ best = r; bad = 0; for (int i = 0; i < 3; ++i) bad += !exec_forked(xs, &best.tape, 0, g_cpu_limit).ok; }
			if (bad == 3){
				violation = true; vmsg = best.msg;
				std::string tt; for (u32_ v : best.tape) tt += strf(" %u", v);
				mkdir(repdir.c_str(), 0777);
				rp = strf("%s/%s-%08x.txt", repdir.c_str(), the_prop.id, (unsigned)hash_str(tt));
				FILE* f = fopen(rp.c_str(), "wb");
				fprintf(f, "property: %s\nmessage: %s\nseed: %llu case: %llu\ntape:%s\n---- case\n%s\n", the_prop.id, best.msg.c_str(), (unsigned long long)g_seed, (unsigned long long)idx, tt.c_str(), best.text.c_str());
				fclose(f);
			} else { fprintf(stderr, "engine: case %llu is not deterministic: %s\n", (unsigned long long)idx, r.msg.c_str()); flaky = 1; }
		}
	}
	if (!evid.empty()){
		FILE* f = fopen(evid.c_str(), "wb");
		fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n  \"planned_cases\": %llu,\n  \"classes\": {", the_prop.id, tier.c_str(), (unsigned long long)g_seed, (unsigned long long)evals, distinct.size(), json_str(the_prop.rule).c_str(), (unsigned long long)ncases);
		bool first = true;
		for (auto& kv : counts){ fprintf(f, "%s\n   %s: %llu", first ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
		fprintf(f, "},\n  \"samples\": [");
		for (size_t i = 0; i < samples.size() && i < 6; ++i) fprintf(f, "%s\n   %s", i ? "," : "", json_str(samples[i]).c_str());
		fprintf(f, "]},\n \"wall_s\": %.2f, \"violations\": %d}\n", now() - T0, violation ? 1 : 0);
		fclose(f);
	}
	printf("%s: %llu cases, %zu distinct non-trivial, %.1fs\n", the_prop.id, (unsigned long long)evals, distinct.size(), now() - T0);
	for (auto& k : prop_known_findings()) printf("KNOWN-FINDING: property=%s %s\n", the_prop.id, k.c_str());
	if (violation){ printf("  %s\nVIOLATION property=%s replay=%s\n", vmsg.c_str(), the_prop.id, rp.c_str()); return 1; }
	if (flaky) printf("note: one failure did not reproduce and is not reported\n");
	return 0;
}

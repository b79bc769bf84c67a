#include "mon.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

static std::vector<OpDef> &ops()
{
	static std::vector<OpDef> v;
	return v;
}
OpReg::OpReg(const char *n, op_fn f, bool b) { ops().push_back({ n, f, b }); }
int op_id(const char *n)
{
	for (size_t i = 0; i < ops().size(); i++)
		if (!strcmp(ops()[i].name, n))
			return (int)i;
	fprintf(stderr, "no such op %s\n", n);
	exit(2);
}
struct PropDef {
	const char *id;
	gen_fn gen;
	const char *rule;
	std::vector<Rule> must;
};
static std::vector<PropDef> &props()
{
	static std::vector<PropDef> v;
	return v;
}
PropReg::PropReg(const char *id, gen_fn g, const char *rule, std::vector<Rule> m) { props().push_back({ id, g, rule, m }); }

std::string fmt(const char *f, ...)
{
	char buf[4096];
	va_list a;
	va_start(a, f);
	vsnprintf(buf, sizeof buf, f, a);
	va_end(a);
	return buf;
}
std::string hex(const std::vector<uint32_t> &v, size_t max)
{
	std::string r;
	for (size_t i = 0; i < v.size() && i < max; i++)
		r += fmt("%s%04X", i ? " " : "", v[i]);
	if (v.size() > max)
		r += fmt(" ...(%zu)", v.size());
	return r;
}
std::string hexb(const uint8_t *p, size_t n, size_t max)
{
	std::string r;
	for (size_t i = 0; i < n && i < max; i++)
		r += fmt("%s%02X", i ? " " : "", p[i]);
	if (n > max)
		r += fmt(" ...(%zu)", n);
	return r;
}
void to_utf8(const std::vector<cp_t> &s, std::vector<uint8_t> &out)
{
	out.clear();
	for (cp_t c : s) {
		uint8_t b[4];
		size_t l = oracle_encode(c, b);
		out.insert(out.end(), b, b + l);
	}
}

// ---------------------------------------------------------------- shared state
static const size_t MAXIN = 1 << 20;
struct Slot {
	std::atomic<uint64_t> seq; // odd while a case is being judged
	uint64_t evals, trivial, nviol, known, longest;
	double slowest; // CPU seconds of the slowest case
	uint64_t rules[R_COUNT];
	int op;
	int64_t p[6];
	uint32_t n;
	struct {
		char name[112];
		uint64_t v;
	} cnt[64];
	uint32_t in[MAXIN];
};
static Slot *slot;              // of this worker
static std::atomic<uint64_t> *table; // distinct non-trivial cases
static uint64_t table_size;
struct Shared {
	std::atomic<uint64_t> distinct, dropped;
} *shared;
static std::string outdir;
static std::string prop_id;

static uint64_t case_hash(const Case &c)
{
	uint64_t h = 1469598103934665603ull ^ (uint64_t)c.op * 0x9E3779B97F4A7C15ull;
	auto mix = [&](uint64_t v) {
		h ^= v;
		h *= 0xff51afd7ed558ccdull;
		h ^= h >> 32;
	};
	for (int i = 0; i < 6; i++)
		mix((uint64_t)c.p[i] + i);
	mix(c.in.size());
	for (uint32_t x : c.in)
		mix(x + 0x100);
	return h ? h : 1;
}
static void remember(uint64_t h)
{
	if (shared->distinct.load(std::memory_order_relaxed) > table_size / 4 * 3) {
		shared->dropped.fetch_add(1, std::memory_order_relaxed);
		return;
	}
	for (uint64_t i = h & (table_size - 1);; i = (i + 1) & (table_size - 1)) {
		uint64_t v = table[i].load(std::memory_order_relaxed);
		if (v == h)
			return;
		if (v == 0) {
			if (table[i].compare_exchange_strong(v, h, std::memory_order_relaxed)) {
				shared->distinct.fetch_add(1, std::memory_order_relaxed);
				return;
			}
			if (v == h)
				return;
		}
	}
}

static void write_case(FILE *f, const Case &c)
{
	fprintf(f, "op %s\np", ops()[c.op].name);
	for (int i = 0; i < 6; i++)
		fprintf(f, " %lld", (long long)c.p[i]);
	fprintf(f, "\nin %zu", c.in.size());
	for (uint32_t x : c.in)
		fprintf(f, " %X", x);
	fprintf(f, "\n");
}
static bool read_case(const char *path, Case &c)
{
	FILE *f = fopen(path, "r");
	char name[64];
	long long p[6];
	size_t n;
	if (!f)
		return false;
	char line[4096];
	long at = 0;
	for (;;) { // skip leading comment lines
		at = ftell(f);
		if (!fgets(line, sizeof line, f))
			return false;
		if (line[0] != '#')
			break;
		while (!strchr(line, '\n') && fgets(line, sizeof line, f))
			;
	}
	fseek(f, at, SEEK_SET);
	if (fscanf(f, "op %63s\np %lld %lld %lld %lld %lld %lld\nin %zu", name, p, p + 1, p + 2, p + 3, p + 4, p + 5, &n) != 8)
		return false;
	c.op = op_id(name);
	for (int i = 0; i < 6; i++)
		c.p[i] = p[i];
	c.in.resize(n);
	for (size_t i = 0; i < n; i++)
		if (fscanf(f, " %X", &c.in[i]) != 1)
			return false;
	fclose(f);
	return true;
}
static std::string one_line(std::string s)
{
	for (char &c : s)
		if (c == '\n' || c == '\r' || c == '\t')
			c = ' ';
	return s;
}

static uint64_t save_violation(const Case &c, const std::string &key, const std::string &msg)
{
	std::string path = outdir + fmt("/viol-%s-%d-%llu.case", prop_id.c_str(), (int)getpid(), (unsigned long long)slot->nviol);
	FILE *f = fopen(path.c_str(), "w");
	if (!f)
		_exit(2);
	fprintf(f, "# property %s key %s\n# %s\n", prop_id.c_str(), key.c_str(), one_line(msg).c_str());
	write_case(f, c);
	fclose(f);
	std::string idx = outdir + "/violations.tsv";
	int fd = open(idx.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	std::string line = key + "\t" + path + "\t" + one_line(msg) + "\n";
	if (write(fd, line.data(), line.size()) < 0)
		_exit(2);
	close(fd);
	return 0;
}

static void judge(const Case &c, Verdict &v) { ops()[c.op].fn(c, v); }

static void minimise(Case &c, Verdict &v)
{
	if (c.in.size() > 3000)
		return;
	for (int budget = 4000; budget > 0;) {
		bool changed = false;
		for (size_t chunk = std::max<size_t>(1, c.in.size() / 2); chunk >= 1 && budget > 0; chunk /= 2) {
			for (size_t i = 0; i + chunk <= c.in.size() && budget > 0;) {
				Case d = c;
				d.in.erase(d.in.begin() + i, d.in.begin() + i + chunk);
				Verdict w;
				judge(d, w);
				budget--;
				if (!w.ok && w.key == v.key) {
					c = d;
					v = w;
					changed = true;
				} else {
					i += chunk;
				}
			}
		}
		if (!changed)
			break;
	}
}

static std::map<std::string, uint64_t> keys_seen;
static void publish(const Case &c)
{
	slot->op = c.op;
	memcpy(slot->p, c.p, sizeof slot->p);
	slot->n = (uint32_t)std::min(c.in.size(), MAXIN);
	memcpy(slot->in, c.in.data(), slot->n * 4);
	slot->seq.fetch_add(1, std::memory_order_release);
}
void Ctx::run(const Case &c)
{
	publish(c);
	Verdict v;
	struct timespec t0, t1;
	bool timed = c.in.size() > 300;
	if (timed)
		clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t0);
	judge(c, v);
	if (timed) {
		clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t1);
		slot->slowest = std::max(slot->slowest, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
	}
	slot->longest = std::max<uint64_t>(slot->longest, c.in.size());
	slot->seq.fetch_add(1, std::memory_order_release);
	slot->evals++;
	if (v.trivial && v.ok)
		slot->trivial++;
	else
		remember(case_hash(c));
	if (!v.ok) {
		slot->nviol++;
		// a few of each key are enough
		if (keys_seen[v.key]++ < 3) {
			Case d = c;
			Verdict w = v;
			// minimising runs the code under test on inputs that may crash it
			publish(d);
			minimise(d, w);
			slot->seq.fetch_add(1, std::memory_order_release);
			save_violation(d, w.key, w.msg);
		}
	}
	if ((slot->evals & 1023) == 0)
		memcpy(slot->rules, rule_hits, sizeof rule_hits);
}
void Ctx::count(const char *name, uint64_t add)
{
	for (auto &c : slot->cnt) {
		if (!c.name[0])
			snprintf(c.name, sizeof c.name, "%s", name);
		if (!strncmp(c.name, name, sizeof c.name - 1)) {
			c.v += add;
			return;
		}
	}
}

// ---------------------------------------------------------------- kinds
Kinds K_seg[4], K_bidi, K_case;
int Kinds::find(const char *n) const
{
	for (size_t i = 0; i < name.size(); i++)
		if (name[i] == n)
			return (int)i;
	return -1;
}
static void build(Kinds &k, const std::function<std::string(cp_t)> &f)
{
	std::map<std::string, std::vector<cp_t>> m;
	for (cp_t c = 0; c < NCP; c++)
		m[f(c)].push_back(c);
	k.name.clear();
	k.cps.clear();
	for (auto &e : m) {
		k.name.push_back(e.first);
		k.cps.push_back(std::move(e.second));
	}
}
void build_kinds()
{
	// names are built once per combination, not per code point, to keep this fast
	auto fast = [](Kinds &k, const std::function<uint32_t(cp_t)> &key, const std::function<std::string(cp_t)> &nm) {
		std::map<uint32_t, size_t> idx;
		k.name.clear();
		k.cps.clear();
		uint32_t lastkey = 0;
		size_t last = SIZE_MAX;
		for (cp_t c = 0; c < NCP; c++) {
			uint32_t q = key(c);
			if (last == SIZE_MAX || q != lastkey) {
				auto it = idx.find(q);
				if (it == idx.end()) {
					it = idx.insert({ q, k.cps.size() }).first;
					k.cps.emplace_back();
					k.name.push_back(nm(c));
				}
				last = it->second;
				lastkey = q;
			}
			k.cps[last].push_back(c);
		}
	};
	(void)build;
	fast(K_seg[0], [](cp_t c) { return U.gcb[c] | U.extpict[c] << 8; },
	     [](cp_t c) { return std::string(gcb_name[U.gcb[c]]) + (U.extpict[c] ? "+ExtPict" : ""); });
	fast(K_seg[1], [](cp_t c) { return U.wb[c] | U.extpict[c] << 8; },
	     [](cp_t c) { return std::string(wb_name[U.wb[c]]) + (U.extpict[c] ? "+ExtPict" : ""); });
	fast(K_seg[2], [](cp_t c) { return (uint32_t)U.sb[c]; }, [](cp_t c) { return std::string(sb_name[U.sb[c]]); });
	auto wide = [](cp_t c) { return (U.lb[c] == L_OP || U.lb[c] == L_CP) && U.wide[c]; };
	fast(K_seg[3], [&](cp_t c) { return (uint32_t)(U.lb[c] | wide(c) << 8 | U.epcn(c) << 9); },
	     [&](cp_t c) { return std::string(lb_name[U.lb[c]]) + (wide(c) ? "+EAwide" : "") + (U.epcn(c) ? "+ExtPictCn" : ""); });
	fast(K_bidi, [](cp_t c) { return (uint32_t)(U.bc[c] | U.btype[c] << 8 | (U.btype[c] && U.canon[U.bpair[c]] != U.bpair[c] ? 1 : 0) << 10 |
	                                            (U.mirror[c] != c) << 11); },
	     [](cp_t c) { return std::string(bc_name[U.bc[c]]) + (U.btype[c] == 1 ? "+open" : U.btype[c] == 2 ? "+close" : "") +
		                 (U.mirror[c] != c ? "+mirror" : ""); });
	auto maplen = [](int w, cp_t c) { auto *m = U.map_of(w, c); return m ? m->size() : 0; };
	fast(K_case, [&](cp_t c) { return (uint32_t)(U.cased[c] | U.ignorable[c] << 1 | maplen(0, c) << 2 | maplen(1, c) << 4 | maplen(2, c) << 6 |
		                            (c == 0x3A3) << 8 | (uint32_t)U.wb[c] << 9); },
	     [&](cp_t c) { return fmt("%s%s lower%zu upper%zu title%zu %s%s", U.cased[c] ? "Cased" : "", U.ignorable[c] ? "Ign" : "",
		                      maplen(0, c), maplen(1, c), maplen(2, c), wb_name[U.wb[c]], c == 0x3A3 ? " SIGMA" : ""); });
}

void Guard::ensure(size_t n)
{
	if (cap >= n)
		return;
	size_t pg = 4096, want = (std::max<size_t>(n, 4096) * 2 + pg - 1) / pg * pg;
	if (base)
		munmap(base, cap + pg);
	base = (uint8_t *)mmap(nullptr, want + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (base == MAP_FAILED)
		_exit(2);
	mprotect(base + want, pg, PROT_NONE);
	cap = want;
}
void *Guard::end_aligned(size_t n, size_t align)
{
	ensure(n + align);
	return base + cap - n; // n is a multiple of align for typed buffers
}

void *Huge::get(size_t dirty)
{
	if (!base) {
		base = (uint8_t *)mmap(nullptr, HUGE_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED)
			base = (uint8_t *)-1;
	}
	if (base == (uint8_t *)-1)
		return nullptr;
	memset(base, 0, used);
	used = dirty;
	return base;
}

// ---------------------------------------------------------------- main
static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static double cpu_of(pid_t pid)
{
	char path[64], buf[1024];
	snprintf(path, sizeof path, "/proc/%d/stat", (int)pid);
	FILE *f = fopen(path, "r");
	if (!f)
		return -1;
	size_t n = fread(buf, 1, sizeof buf - 1, f);
	fclose(f);
	buf[n] = 0;
	char *p = strrchr(buf, ')');
	unsigned long long ut = 0, st = 0;
	if (!p || sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &ut, &st) != 2)
		return -1;
	return (double)(ut + st) / sysconf(_SC_CLK_TCK);
}
static Case slot_case(const Slot &s)
{
	Case c;
	c.op = s.op;
	memcpy(c.p, s.p, sizeof s.p);
	c.in.assign(s.in, s.in + s.n);
	return c;
}
// judge a case in a child with a CPU limit: 0 ok, 1 violated, 2 crashed, 3 ran out of CPU time
static int judge_in_child(const Case &c, int cpu, int *sig)
{
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		struct rlimit r = { (rlim_t)cpu, (rlim_t)cpu + 1 };
		setrlimit(RLIMIT_CPU, &r);
		struct rlimit z = { 0, 0 };
		setrlimit(RLIMIT_CORE, &z);
		Verdict v;
		judge(c, v);
		_exit(v.ok ? 0 : 1);
	}
	int st;
	waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) <= 1)
		return WEXITSTATUS(st);
	if (WIFSIGNALED(st)) {
		*sig = WTERMSIG(st);
		if (*sig == SIGXCPU || *sig == SIGKILL)
			return 3;
		return 2;
	}
	*sig = 0;
	return 2;
}
static Case minimise_crash(Case c, int want, int cpu)
{
	if (c.in.size() > 3000)
		return c;
	int budget = want == 3 ? 20 : 300;
	for (bool changed = true; changed && budget > 0;) {
		changed = false;
		for (size_t chunk = std::max<size_t>(1, c.in.size() / 2); chunk >= 1 && budget > 0; chunk /= 2)
			for (size_t i = 0; i + chunk <= c.in.size() && budget > 0;) {
				Case d = c;
				d.in.erase(d.in.begin() + i, d.in.begin() + i + chunk);
				int sig;
				budget--;
				if (judge_in_child(d, want == 3 ? 2 : cpu, &sig) == want) {
					c = d;
					changed = true;
				} else {
					i += chunk;
				}
			}
	}
	return c;
}

static void json_str(FILE *f, const std::string &s)
{
	fputc('"', f);
	for (unsigned char c : s) {
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c < 32 || c > 126)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

std::string ucd_dir;
int main(int argc, char **argv)
{
	if (argc < 4) {
		fprintf(stderr, "usage: mon run UCD PROP SEED TIER WORKERS OUTDIR | replay UCD FILE | pools UCD OUT\n");
		return 2;
	}
	std::string cmd = argv[1], err;
	if (!U.load(argv[2], err)) {
		fprintf(stderr, "UCD: %s\n", err.c_str());
		return 2;
	}
	ucd_dir = argv[2];
	build_kinds();
	slot = (Slot *)calloc(1, sizeof(Slot));
	if (cmd == "replay") {
		Case c;
		if (!read_case(argv[3], c)) {
			fprintf(stderr, "cannot read case\n");
			return 2;
		}
		int sig = 0;
		Verdict v;
		if (argc <= 4) {
			int r = judge_in_child(c, 120, &sig);
			if (r >= 2) {
				printf("%s: the call %s (signal %d) on input %s\n", ops()[c.op].name, r == 3 ? "did not return" : "crashed", sig,
				       hex(c.in).c_str());
				return 1;
			}
		}
		judge(c, v);
		printf("%s\n", v.ok ? "held" : (v.key + ": " + v.msg).c_str());
		return v.ok ? 0 : 1;
	}
	if (cmd == "pools") {
		// code points for the C drivers: for each kind of each family a few members
		FILE *f = fopen(argv[3], "w");
		if (!f)
			return 2;
		Kinds *all[6] = { &K_seg[0], &K_seg[1], &K_seg[2], &K_seg[3], &K_bidi, &K_case };
		for (int i = 0; i < 6; i++)
			for (size_t k = 0; k < all[i]->size(); k++) {
				Rng r(k * 7 + i);
				fprintf(f, "%d %zu", i, k);
				for (int j = 0; j < 6; j++)
					fprintf(f, " %X", j == 0 ? all[i]->first(k) : all[i]->any(k, r));
				fprintf(f, "\n");
			}
		fclose(f);
		return 0;
	}
	if (cmd != "run" || argc < 8)
		return 2;
	prop_id = argv[3];
	uint64_t seed = strtoull(argv[4], nullptr, 10);
	bool thorough = !strcmp(argv[5], "thorough");
	int nw = atoi(argv[6]);
	outdir = argv[7];
	std::vector<PropDef *> gens;
	PropDef *pd = nullptr;
	for (auto &p : props())
		if (prop_id == p.id) {
			gens.push_back(&p);
			if (!pd || !p.must.empty())
				pd = &p;
		}
	if (!pd) {
		fprintf(stderr, "no such property\n");
		return 2;
	}
	table_size = thorough ? 1ull << 28 : 1ull << 25;
	table = (std::atomic<uint64_t> *)mmap(nullptr, table_size * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if ((void *)table == MAP_FAILED || (void *)shared == MAP_FAILED || (void *)slots == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	fflush(stdout);
	std::vector<pid_t> pid(nw);
	double t0 = now();
	for (int w = 0; w < nw; w++) {
		pid[w] = fork();
		if (pid[w] == 0) {
			slot = &slots[w];
			memset(rule_hits, 0, sizeof rule_hits);
			struct rlimit z = { 0, 0 };
			setrlimit(RLIMIT_CORE, &z);
			Ctx ctx(w, nw, seed, thorough);
			for (auto *g : gens)
				g->gen(ctx);
			memcpy(slot->rules, rule_hits, sizeof rule_hits);
			_exit(0);
		}
	}
	// watch the workers: a case that uses more than LIMIT seconds of CPU is examined alone
	const double LIMIT = thorough ? 60 : 20; // every case of the unchanged tree takes well below a second
	std::vector<uint64_t> lastseq(nw, 0);
	std::vector<double> lastcpu(nw, 0);
	int alive = nw, broken = 0;
	bool hung = false;
	double nextpoll = now() + 1;
	std::vector<bool> done(nw, false);
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int w = (int)(std::find(pid.begin(), pid.end(), p) - pid.begin());
			if (w >= nw || done[w])
				continue;
			done[w] = true;
			alive--;
			slot = &slots[w];
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
				continue;
			Case c = slot_case(slots[w]);
			bool memfault = WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGABRT ||
			                                    WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGTRAP);
			if (slots[w].evals == 0 && !(slots[w].seq.load() & 1)) {
				fprintf(stderr, "worker %d died before its first case (status %x)\n", w, st);
				broken = 1;
				continue;
			}
			bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
			// a hang is confirmed alone; when one has been, further ones are believed
			int sig = 0, r = killed && hung ? 3 : judge_in_child(c, (int)LIMIT, &sig);
			if (r == 0 && memfault) {
				// memory was corrupted by this or an earlier call
				slots[w].nviol++;
				save_violation(c, "crash", fmt("the process crashed (signal %d) in or shortly after this case, not when it runs alone: %s %s",
				                               WTERMSIG(st), ops()[c.op].name, hex(c.in).c_str()));
				continue;
			}
			if (r == 0) {
				fprintf(stderr, "worker %d ended in a case that does not fail alone (status %x)\n", w, st);
				broken = 1;
				continue;
			}
			slots[w].nviol++;
			if (r == 2 || (r == 3 && !hung))
				c = minimise_crash(c, r, (int)LIMIT);
			hung = hung || r == 3;
			save_violation(c, r == 2 ? "crash" : r == 3 ? "hang" : "wrong",
			               fmt("%s: %s (signal %d) on input %s", ops()[c.op].name, r == 3 ? "the call did not return" : r == 2 ? "the call crashed" : "wrong result",
			                   sig, hex(c.in).c_str()));
			continue;
		}
		if (now() >= nextpoll) {
			nextpoll = now() + 1;
			for (int w = 0; w < nw; w++) {
				if (done[w])
					continue;
				uint64_t s = slots[w].seq.load();
				double c = cpu_of(pid[w]);
				if (s != lastseq[w] || !(s & 1)) {
					lastseq[w] = s;
					lastcpu[w] = c;
				} else if (c - lastcpu[w] > LIMIT) {
					kill(pid[w], SIGKILL);
				}
			}
		}
		usleep(2000);
	}
	uint64_t evals = 0, triv = 0, nviol = 0, longest = 0;
	double slowest = 0;
	std::vector<uint64_t> rules(R_COUNT, 0);
	std::map<std::string, uint64_t> cnt;
	for (int w = 0; w < nw; w++) {
		evals += slots[w].evals;
		triv += slots[w].trivial;
		nviol += slots[w].nviol;
		for (int r = 0; r < R_COUNT; r++)
			rules[r] += slots[w].rules[r];
		for (auto &c : slots[w].cnt)
			if (c.name[0])
				cnt[c.name] += c.v;
		longest = std::max(longest, slots[w].longest);
		slowest = std::max(slowest, slots[w].slowest);
	}
	cnt["longest input (elements)"] = longest;
	cnt["slowest case of over 300 elements (CPU ms)"] = (uint64_t)(slowest * 1000);
	std::string missing;
	for (Rule r : pd->must)
		if (rules[r] == 0)
			missing += std::string(missing.empty() ? "" : " ") + rule_name[r];
	FILE *f = fopen((outdir + "/stats.json").c_str(), "w");
	fprintf(f, "{\"evaluations\": %llu, \"trivial\": %llu, \"distinct_nontrivial\": %llu, \"distinct_not_counted\": %llu, \"violating_cases\": %llu,\n",
	        (unsigned long long)evals, (unsigned long long)triv, (unsigned long long)shared->distinct.load(),
	        (unsigned long long)shared->dropped.load(), (unsigned long long)nviol);
	fprintf(f, "\"rule\": ");
	std::string rl;
	for (auto *g : gens)
		rl += std::string(rl.empty() ? "" : "  ") + g->rule;
	json_str(f, rl);
	fprintf(f, ", \"missing_rules\": ");
	json_str(f, missing);
	fprintf(f, ", \"rule_hits\": {");
	bool first = true;
	for (int r = 0; r < R_COUNT; r++)
		if (rules[r]) {
			fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", rule_name[r], (unsigned long long)rules[r]);
			first = false;
		}
	fprintf(f, "}, \"counters\": {");
	first = true;
	for (auto &c : cnt) {
		fprintf(f, "%s", first ? "" : ", ");
		json_str(f, c.first);
		fprintf(f, ": %llu", (unsigned long long)c.second);
		first = false;
	}
	fprintf(f, "}, \"samples\": [");
	// the last case each worker judged
	for (int w = 0; w < nw && w < 4; w++) {
		Case c = slot_case(slots[w]);
		if (c.in.size() > 48)
			c.in.resize(48);
		fprintf(f, "%s", w ? ", " : "");
		json_str(f, fmt("%s p=%lld,%lld,%lld in=%s", ops()[c.op].name, (long long)c.p[0], (long long)c.p[1], (long long)c.p[2], hex(c.in, 48).c_str()));
	}
	fprintf(f, "], \"wall\": %.2f}\n", now() - t0);
	fclose(f);
	if (broken)
		return 3;
	return nviol ? 1 : 0;
}

// Monitor framework: cases, parallel workers, statistics shared between worker processes, crash and
// hang attribution, minimisation, replay.
#pragma once
#include "oracle.hpp"
#include <functional>
#include <string>
#include <vector>
extern "C" {
#include "grapheme.h"
}

struct Case {
	int op = 0;              // index into ops()
	int64_t p[6] = { 0, 0, 0, 0, 0, 0 };
	std::vector<uint32_t> in; // code points, or bytes for UTF-8 operations
};

// result of judging one case
struct Verdict {
	bool ok = true;
	bool trivial = false; // nothing but default behaviour was exercised
	std::string key;      // class of the violation, for the known-findings file
	std::string msg;
	void fail(const char *k, std::string m)
	{
		if (ok) {
			ok = false;
			key = k;
			msg = std::move(m);
		}
	}
};
typedef void (*op_fn)(const Case &, Verdict &);
struct OpDef {
	const char *name;
	op_fn fn;
	bool bytes; // input is bytes
};
int op_id(const char *name);
struct OpReg {
	OpReg(const char *name, op_fn fn, bool bytes);
};

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return (uint32_t)((next() >> 32) * n >> 32); }
	bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

struct Ctx {
	int worker, nworkers;
	uint64_t seed;
	bool thorough;
	Rng rng;
	Ctx(int w, int n, uint64_t s, bool t) : worker(w), nworkers(n), seed(s), thorough(t), rng(s * 1000003 + w) {}
	// judge one case; counts it, records violations
	void run(const Case &c);
	// partition: true if item i belongs to this worker
	bool mine(uint64_t i) const { return i % nworkers == (uint64_t)worker; }
	void count(const char *name, uint64_t add = 1); // named extra counters
};

typedef void (*gen_fn)(Ctx &);
struct PropReg {
	PropReg(const char *id, gen_fn g, const char *rule, std::vector<Rule> must_hit);
};

// kinds: combinations of properties that the algorithms distinguish, with the code points having them
struct Kinds {
	std::vector<std::string> name;
	std::vector<std::vector<cp_t>> cps;
	size_t size() const { return cps.size(); }
	cp_t rep(size_t k) const { return cps[k][cps[k].size() / 2]; }
	cp_t first(size_t k) const { return cps[k][0]; }
	cp_t any(size_t k, Rng &r) const { return r.pick(cps[k]); }
	int find(const char *n) const;
};
extern Kinds K_seg[4], K_bidi, K_case; // K_seg: character, word, sentence, line
void build_kinds();

// guarded allocation: n bytes that end (or begin) at an inaccessible page
struct Guard {
	uint8_t *base = nullptr;
	size_t cap = 0;
	void ensure(size_t n);
	void *end_aligned(size_t n, size_t align); // block whose last byte is directly before the guard page
};

// a block of memory that is as large as a huge declared length or capacity says, untouched pages cost nothing;
// get returns nullptr if the system refuses
struct Huge {
	uint8_t *base = nullptr;
	size_t used = 0;
	void *get(size_t dirty); // all zero; dirty: how many bytes this use may write
};
static const size_t HUGE_BYTES = ((size_t)1 << 33) * 4 + (1 << 20);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const std::vector<uint32_t> &v, size_t max = 40);
std::string hexb(const uint8_t *p, size_t n, size_t max = 60);
void to_utf8(const std::vector<cp_t> &s, std::vector<uint8_t> &out);

// Cross-validation of the reference models (not a check of libgrapheme; libgrapheme is not linked):
//   official  the models against the official Unicode 15.0 test files
//   icu       the bidi and case models against ICU
//   emit      random strings with the model's boundaries, for comparison with Perl's \b{...}
#include "../src/gen.hpp"
#include <unicode/ubidi.h>
#include <unicode/ucasemap.h>
#include <unicode/ustring.h>
#include <unicode/ubrk.h>
#include <fstream>
#include <sstream>
#include <string>

static long bad, total;
static void report(const std::string &m)
{
	if (bad++ < 15)
		printf("  DIFFERS %s\n", m.c_str());
}
static std::string hx(const std::vector<cp_t> &s)
{
	std::string r;
	char b[16];
	for (cp_t c : s) {
		snprintf(b, sizeof b, "%04X ", c);
		r += b;
	}
	return r;
}
static void breaks(const char *file, oracle_seg_fn f)
{
	std::ifstream in(file);
	std::string l;
	total = bad = 0;
	while (std::getline(in, l)) {
		l = l.substr(0, l.find('#'));
		std::istringstream is(l);
		std::string t;
		std::vector<cp_t> s;
		Bounds want, got;
		while (is >> t) {
			if (t == "÷" || t == "×")
				want.push_back(t == "÷");
			else
				s.push_back((cp_t)strtoul(t.c_str(), nullptr, 16));
		}
		if (s.empty())
			continue;
		total++;
		f(s.data(), s.size(), got);
		want.resize(got.size());
		got[0] = want[0] = 1;
		for (size_t i = 1; i < s.size(); i++)
			if (!!got[i] != !!want[i]) {
				report(hx(s) + "at " + std::to_string(i));
				break;
			}
	}
	printf("%s: %ld strings, %ld differ\n", file, total, bad);
}
static cp_t rep(const std::string &name)
{
	static std::map<std::string, cp_t> m;
	if (m.empty())
		for (cp_t c = NCP; c-- > 0;)
			if (!U.btype[c])
				m[bc_name[U.bc[c]]] = c;
	return m.at(name);
}
static void bidi_official(const char *file)
{
	std::ifstream in(file);
	std::string l;
	std::vector<int> lev;
	total = bad = 0;
	while (std::getline(in, l)) {
		l = l.substr(0, l.find('#'));
		if (l.empty())
			continue;
		if (l[0] == '@') {
			if (l.compare(0, 8, "@Levels:") == 0) {
				lev.clear();
				std::istringstream is(l.substr(8));
				std::string t;
				while (is >> t)
					lev.push_back(t == "x" ? -1 : atoi(t.c_str()));
			}
			continue;
		}
		std::istringstream is(l.substr(0, l.find(';')));
		int bits = atoi(l.c_str() + l.find(';') + 1);
		std::string t;
		std::vector<cp_t> s;
		while (is >> t)
			s.push_back(rep(t));
		for (int d = 0; d < 3; d++)
			if (bits >> d & 1) {
				total++;
				BidiRes r;
				std::vector<int8_t> g;
				// the test treats the text as one paragraph with B inside being... a separator ends it
				oracle_bidi(s.data(), s.size(), d, r);
				oracle_line_levels(r, 0, r.len, g);
				for (size_t i = 0; i < r.len; i++)
					if (g[i] != lev[i] && r.len == s.size()) {
						report(l);
						break;
					}
			}
	}
	printf("%s: %ld paragraphs, %ld differ\n", file, total, bad);
}
static void bidichar_official(const char *file)
{
	std::ifstream in(file);
	std::string l;
	total = bad = 0;
	while (std::getline(in, l)) {
		if (l.empty() || l[0] == '#')
			continue;
		std::vector<std::string> f;
		std::istringstream is(l);
		std::string t;
		while (std::getline(is, t, ';'))
			f.push_back(t);
		std::vector<cp_t> s;
		std::istringstream a(f[0]);
		while (a >> t)
			s.push_back((cp_t)strtoul(t.c_str(), nullptr, 16));
		int d = f[1] == "0" ? 1 : f[1] == "1" ? 2 : 0;
		BidiRes r;
		std::vector<int8_t> g;
		oracle_bidi(s.data(), s.size(), d, r);
		oracle_line_levels(r, 0, r.len, g);
		total++;
		bool ok = r.para == atoi(f[2].c_str());
		std::istringstream b(f[3]);
		size_t i = 0;
		while (b >> t && i < r.len)
			ok = ok && g[i++] == (t == "x" ? -1 : atoi(t.c_str()));
		// order, from the reordering model without mirroring: map by index
		if (r.len == s.size()) {
			std::vector<cp_t> idx(s.size()), out;
			std::istringstream o(f.size() > 4 ? f[4] : "");
			// give every position a distinct character of no mirror: use private use positions
			std::vector<cp_t> names(s.size());
			for (size_t k = 0; k < s.size(); k++)
				names[k] = 0xF0000 + (cp_t)k;
			oracle_reorder(names.data(), r, 0, r.len, false, out);
			std::vector<cp_t> want;
			while (o >> t)
				want.push_back(0xF0000 + (cp_t)atoi(t.c_str()));
			ok = ok && want == out;
		}
		if (!ok)
			report(l);
	}
	printf("%s: %ld paragraphs, %ld differ\n", file, total, bad);
}
static std::u16string u16(const std::vector<cp_t> &s, std::vector<size_t> *off = nullptr)
{
	std::u16string r;
	for (cp_t c : s) {
		if (off)
			off->push_back(r.size());
		if (c < 0x10000)
			r += (char16_t)c;
		else {
			r += (char16_t)(0xD7C0 + (c >> 10));
			r += (char16_t)(0xDC00 + (c & 0x3FF));
		}
	}
	return r;
}
static bool usable(const std::vector<cp_t> &s)
{
	for (cp_t c : s)
		if (c >= NCP || (c >= 0xD800 && c < 0xE000) || u_charType((UChar32)c) == U_UNASSIGNED)
			return false;
	return true;
}
static void icu_bidi(long n, uint64_t seed)
{
	Rng r(seed);
	std::vector<cp_t> s;
	total = bad = 0;
	UBiDi *b = ubidi_open();
	for (long i = 0; i < n; i++) {
		random_string(K_bidi, r, 120, s, 0);
		if (r.chance(1, 2)) // brackets
			for (auto &x : s)
				if (r.chance(1, 3))
					x = "()[]{}"[r.below(6)];
		for (auto &x : s)
			if (U.b(x) == B_B || x >= NCP || (x >= 0xD800 && x < 0xE000) || u_charDirection((UChar32)x) != u_charDirection((UChar32)x))
				x = 'a';
		std::vector<size_t> off;
		std::u16string t = u16(s, &off);
		int d = r.below(3);
		UErrorCode e = U_ZERO_ERROR;
		ubidi_setPara(b, t.data(), (int32_t)t.size(), d == 0 ? UBIDI_DEFAULT_LTR : d == 1 ? 0 : 1, nullptr, &e);
		const UBiDiLevel *lv = ubidi_getLevels(b, &e);
		// ICU gives texts of one direction the paragraph level throughout
		if (U_FAILURE(e) || ubidi_getDirection(b) != UBIDI_MIXED)
			continue;
		total++;
		BidiRes res;
		std::vector<int8_t> g;
		oracle_bidi(s.data(), s.size(), d, res);
		oracle_line_levels(res, 0, res.len, g);
		for (size_t k = 0; k < res.len; k++)
			if (g[k] >= 0 && g[k] != (lv[off[k]] & 127)) {
				std::string m = hx(s) + " dir " + std::to_string(d) + " at " + std::to_string(k) + " model " + std::to_string(g[k]) + " icu " +
				                std::to_string(lv[off[k]]);
				report(m);
				break;
			}
	}
	printf("ICU bidi: %ld paragraphs, %ld differ\n", total, bad);
}
static void icu_case(long n, uint64_t seed)
{
	Rng r(seed);
	total = bad = 0;
	std::vector<cp_t> s, out;
	std::vector<size_t> si;
	UErrorCode e = U_ZERO_ERROR;
	UBreakIterator *wi = ubrk_open(UBRK_WORD, "", nullptr, 0, &e);
	for (long i = 0; i < n; i++) {
		random_string(K_case, r, 60, s, 0);
		if (!usable(s))
			continue;
		for (int w = 0; w < 2; w++) {
			std::u16string t = u16(s);
			std::vector<UChar> o(t.size() * 6 + 8);
			e = U_ZERO_ERROR;
			int32_t m = w == 0 ? u_strToLower(o.data(), (int32_t)o.size(), t.data(), (int32_t)t.size(), "", &e)
			                   : u_strToUpper(o.data(), (int32_t)o.size(), t.data(), (int32_t)t.size(), "", &e);
			if (U_FAILURE(e))
				continue;
			oracle_case(s.data(), s.size(), w, out, si);
			std::vector<cp_t> o2 = out;
			std::u16string g = u16(out), ic(o.data(), o.data() + m);
			total++;
			if (g != ic)
				report(std::string(w ? "upper " : "lower ") + hx(s));
		}
	}
	(void)wi;
	printf("ICU case: %ld conversions, %ld differ\n", total, bad);
}
// strings for Perl: kind, code points, boundaries
static void emit(long n, uint64_t seed)
{
	Rng r(seed);
	static const char *nm[4] = { "gcb", "wb", "sb", "lb" };
	std::vector<cp_t> s;
	Bounds b;
	for (long i = 0; i < n; i++)
		for (int k = 0; k < 4; k++) {
			random_string(K_seg[k], r, 40, s, 0);
			bool ok = true;
			for (cp_t c : s)
				// Perl keeps white space together and has no class for letters that are pictographs
				ok = ok && c < NCP && !(c >= 0xD800 && c < 0xE000) && (k != 1 || !(u_isUWhiteSpace((UChar32)c) || u_isblank((UChar32)c))) &&
				     (k != 1 || !u_hasBinaryProperty((UChar32)c, UCHAR_EXTENDED_PICTOGRAPHIC));
			if (!ok)
				continue;
			oracle_seg[k](s.data(), s.size(), b);
			printf("%s %s;", nm[k], hx(s).c_str());
			for (size_t j = 1; j < s.size(); j++)
				if (b[j])
					printf(" %zu", j);
			printf("\n");
		}
}
int main(int argc, char **argv)
{
	std::string err;
	if (argc < 3 || !U.load(argv[2], err)) {
		fprintf(stderr, "usage: xval official|icu|emit UCD [N SEED] %s\n", err.c_str());
		return 2;
	}
	build_kinds();
	std::string m = argv[1], d = argv[2];
	long n = argc > 3 ? atol(argv[3]) : 200000;
	uint64_t seed = argc > 4 ? (uint64_t)atol(argv[4]) : 1;
	if (m == "official") {
		breaks((d + "/GraphemeBreakTest.txt").c_str(), oracle_seg[0]);
		breaks((d + "/WordBreakTest.txt").c_str(), oracle_seg[1]);
		breaks((d + "/SentenceBreakTest.txt").c_str(), oracle_seg[2]);
		breaks((d + "/LineBreakTest.txt").c_str(), oracle_seg[3]);
		bidi_official("/usr/share/unicode/BidiTest.txt");
		bidichar_official("/usr/share/unicode/BidiCharacterTest.txt");
	} else if (m == "icu") {
		icu_bidi(n, seed);
		icu_case(n, seed);
	} else
		emit(n, seed);
	return 0;
}

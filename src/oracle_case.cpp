#include "oracle.hpp"
#define HIT(r) (rule_hits[r]++)

// Final_Sigma of table 3-17.  Cased and Case_Ignorable are not disjoint: a character that is both is skipped as
// an ignorable one on either side and fulfils a condition on neither (chapter 3.13: the Before condition is not
// satisfied by a preceding U+0345 alone, the After condition is by a following one).  ICU, Python and Rust agree.
static bool before(const cp_t *s, size_t i)
{
	for (size_t k = i; k-- > 0;)
		if (!U.is_ign(s[k]))
			return U.is_cased(s[k]);
	return false;
}
static bool after(const cp_t *s, size_t n, size_t i)
{
	for (size_t k = i + 1; k < n; k++)
		if (!U.is_ign(s[k]))
			return U.is_cased(s[k]);
	return false;
}

void oracle_case(const cp_t *s, size_t n, int which, std::vector<cp_t> &out, std::vector<size_t> &srcidx)
{
	out.clear();
	srcidx.clear();
	Bounds wb;
	if (which == 2)
		oracle_word(s, n, wb);
	bool seen = false;
	for (size_t i = 0; i < n; i++) {
		int w = which;
		if (which == 2) {
			if (wb[i])
				seen = false;
			if (!seen) {
				if (U.is_cased(s[i])) {
					seen = true;
					HIT(R_TITLE);
				} else {
					w = -1; // untouched
				}
			} else {
				w = 0;
			}
		}
		if (w == 0 && s[i] == 0x3A3) {
			bool f = before(s, i) && !after(s, n, i);
			if ((i > 0 && U.is_ign(s[i - 1]) && U.is_cased(s[i - 1])) || (i + 1 < n && U.is_ign(s[i + 1]) && U.is_cased(s[i + 1])))
				HIT(R_SIGMA_BOTH);
			HIT(f ? R_FINAL_SIGMA : R_NONFINAL_SIGMA);
			out.push_back(f ? 0x3C2 : 0x3C3);
			srcidx.push_back(i);
			continue;
		}
		const std::vector<cp_t> *m = w < 0 ? nullptr : U.map_of(w, s[i]);
		if (!m) {
			out.push_back(s[i]);
			srcidx.push_back(i);
		} else {
			HIT(m->size() > 1 ? R_CASE_SPECIAL : R_CASE);
			for (cp_t c : *m) {
				out.push_back(c);
				srcidx.push_back(i);
			}
		}
	}
}

size_t oracle_decode(const uint8_t *s, size_t n, cp_t &cp)
{
	cp = 0xFFFD;
	if (n == 0)
		return 0;
	uint8_t a = s[0];
	if (a < 0x80) {
		cp = a;
		return 1;
	}
	size_t need = a >= 0xC0 && a <= 0xDF ? 2 : a >= 0xE0 && a <= 0xEF ? 3 : a >= 0xF0 && a <= 0xF7 ? 4 : 0;
	if (need == 0)
		return 1; // stray continuation byte or byte that never occurs
	for (size_t i = 1; i < need; i++) {
		if (i == n)
			return need; // the text ends inside the sequence
		if ((s[i] & 0xC0) != 0x80)
			return i; // cut short by another byte
	}
	// Table 3-7 of the standard
	bool ok;
	if (need == 2)
		ok = a >= 0xC2;
	else if (need == 3)
		ok = a == 0xE0 ? s[1] >= 0xA0 : a == 0xED ? s[1] <= 0x9F : true;
	else
		ok = a == 0xF0 ? s[1] >= 0x90 : a == 0xF4 ? s[1] <= 0x8F : a <= 0xF4;
	if (ok) {
		static const uint8_t first[5] = { 0, 0, 0x1F, 0x0F, 0x07 };
		cp = a & first[need];
		for (size_t i = 1; i < need; i++)
			cp = cp * 64 + (s[i] - 0x80);
	}
	return need;
}

size_t oracle_encode(cp_t c, uint8_t o[4])
{
	if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF))
		c = 0xFFFD;
	if (c < 0x80) {
		o[0] = (uint8_t)c;
		return 1;
	}
	if (c < 0x800) {
		o[0] = (uint8_t)(0xC0 + c / 64), o[1] = (uint8_t)(0x80 + c % 64);
		return 2;
	}
	if (c < 0x10000) {
		o[0] = (uint8_t)(0xE0 + c / 4096), o[1] = (uint8_t)(0x80 + c / 64 % 64), o[2] = (uint8_t)(0x80 + c % 64);
		return 3;
	}
	o[0] = (uint8_t)(0xF0 + c / 262144), o[1] = (uint8_t)(0x80 + c / 4096 % 64), o[2] = (uint8_t)(0x80 + c / 64 % 64),
	o[3] = (uint8_t)(0x80 + c % 64);
	return 4;
}

// Reference models written from the text of UAX #29, UAX #14, UAX #9 and chapter 3 of the standard.
// Each rule bumps a counter when it decides something, so a run can report which rules it exercised.
#pragma once
#include "ucd.hpp"
#include <cstring>

enum Rule {
	R_GB1_2, R_GB3, R_GB4, R_GB5, R_GB6, R_GB7, R_GB8, R_GB9, R_GB9a, R_GB9b, R_GB11, R_GB12_13, R_GB999,
	R_WB3, R_WB3a, R_WB3b, R_WB3c, R_WB3d, R_WB4, R_WB5, R_WB6, R_WB7, R_WB7a, R_WB7b, R_WB7c, R_WB8, R_WB9, R_WB10,
	R_WB11, R_WB12, R_WB13, R_WB13a, R_WB13b, R_WB15_16, R_WB999,
	R_SB3, R_SB4, R_SB5, R_SB6, R_SB7, R_SB8, R_SB8a, R_SB9, R_SB10, R_SB11, R_SB998,
	R_LB4, R_LB5, R_LB6, R_LB7, R_LB8, R_LB8a, R_LB9, R_LB11, R_LB12, R_LB12a, R_LB13, R_LB14, R_LB15, R_LB16, R_LB17,
	R_LB18, R_LB19, R_LB20, R_LB21, R_LB21a, R_LB21b, R_LB22, R_LB23, R_LB23a, R_LB24, R_LB25, R_LB26, R_LB27, R_LB28,
	R_LB29, R_LB30, R_LB30a, R_LB30b, R_LB31,
	R_P2, R_P3, R_X2_X5, R_X5a_c, R_XOVER, R_X6, R_X6a, R_X6aover, R_X7, R_X9, R_W1, R_W2, R_W3, R_W4, R_W5, R_W6, R_W7,
	R_N0b, R_N0c1, R_N0c2, R_N0d, R_N0nsm, R_BD16over, R_N1, R_N2, R_I1, R_I2, R_L1_12, R_L1_3, R_L1_4, R_L2, R_L4,
	R_BD13,
	R_CASE, R_CASE_SPECIAL, R_FINAL_SIGMA, R_NONFINAL_SIGMA, R_SIGMA_BOTH, R_TITLE,
	R_COUNT
};
extern const char *const rule_name[R_COUNT];
extern uint64_t rule_hits[R_COUNT];

extern Ucd U; // the data the models use

// boundaries: b[i] != 0 iff there is a boundary before element i (b[0] = b[n] = 1 for n > 0)
typedef std::vector<uint8_t> Bounds;
void oracle_character(const cp_t *s, size_t n, Bounds &b);
void oracle_word(const cp_t *s, size_t n, Bounds &b);
void oracle_sentence(const cp_t *s, size_t n, Bounds &b);
void oracle_line(const cp_t *s, size_t n, Bounds &b);
typedef void (*oracle_seg_fn)(const cp_t *, size_t, Bounds &);
extern const oracle_seg_fn oracle_seg[4]; // character, word, sentence, line

struct BidiRes {
	size_t len;                  // length of the first paragraph including its separator
	int para;                    // paragraph level
	std::vector<int8_t> lev;     // after L1 rules 1-3 over the whole paragraph, -1 removed by X9
	std::vector<uint8_t> orig;   // original classes
};
// dir: 0 neutral (auto), 1 ltr, 2 rtl
void oracle_bidi(const cp_t *s, size_t n, int dir, BidiRes &r);
// rule L1 part 4 for the slice [a, e)
void oracle_line_levels(const BidiRes &r, size_t a, size_t e, std::vector<int8_t> &lev);
// L2 + L4; mirror_all reproduces a known deviation
void oracle_reorder(const cp_t *s, const BidiRes &r, size_t a, size_t e, bool mirror_all, std::vector<cp_t> &out);

// which: 0 lower 1 upper 2 title.  srcidx[i] is the index of the source code point output i comes from.
void oracle_case(const cp_t *s, size_t n, int which, std::vector<cp_t> &out, std::vector<size_t> &srcidx);

// UTF-8: Table 3-7 model.  Returns bytes consumed (> n if the string ends inside a sequence).
size_t oracle_decode(const uint8_t *s, size_t n, cp_t &cp);
size_t oracle_encode(cp_t c, uint8_t out[4]);

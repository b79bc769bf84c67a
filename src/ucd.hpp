// Independent reader for the Unicode character database files (own code, own committed copy in
// /verif/ucd, or another directory for the data-fidelity property).
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

typedef uint32_t cp_t;
static const cp_t NCP = 0x110000;

enum Gcb : uint8_t { G_XX, G_CR, G_LF, G_CN, G_EX, G_ZWJ, G_RI, G_PP, G_SM, G_L, G_V, G_T, G_LV, G_LVT, G_N };
enum Wb : uint8_t {
	W_XX, W_CR, W_LF, W_NL, W_Extend, W_Format, W_ZWJ, W_RI, W_Kata, W_HL, W_AL, W_SQ, W_DQ, W_MB /*MidNumLet*/,
	W_ML, W_MN, W_NU, W_ENL, W_WSeg, W_N
};
enum Sb : uint8_t { S_XX, S_CR, S_LF, S_Sep, S_Extend, S_Format, S_Sp, S_LO, S_UP, S_OL, S_NU, S_AT, S_SC, S_ST, S_CL, S_N };
enum Lb : uint8_t {
	L_BK, L_CR, L_LF, L_NL, L_SP, L_ZW, L_ZWJ, L_CM, L_WJ, L_GL, L_BA, L_BB, L_B2, L_HY, L_CB, L_CL, L_CP, L_EX,
	L_IN, L_NS, L_OP, L_QU, L_IS, L_NU, L_PO, L_PR, L_SY, L_AL, L_HL, L_ID, L_EB, L_EM, L_H2, L_H3, L_JL, L_JV,
	L_JT, L_RI,
	// resolved away by LB1
	L_AI, L_CJ, L_SA, L_SG, L_XX, L_N
};
enum Bc : uint8_t {
	B_L, B_R, B_AL, B_EN, B_ES, B_ET, B_AN, B_CS, B_NSM, B_BN, B_B, B_S, B_WS, B_ON, B_LRE, B_LRO, B_RLE, B_RLO,
	B_PDF, B_LRI, B_RLI, B_FSI, B_PDI, B_N
};
extern const char *const gcb_name[], *const wb_name[], *const sb_name[], *const lb_name[], *const bc_name[];

struct Ucd {
	std::vector<uint8_t> gcb, wb, sb, lb, bc; // lb is resolved (LB1)
	std::vector<uint8_t> extpict, wide, cn, mark; // wide: EAW F/W/H; cn: General_Category Cn; mark: Mn/Mc
	std::vector<uint8_t> cased, ignorable;
	std::vector<uint8_t> btype;  // 0 none 1 open 2 close
	std::vector<cp_t> bpair;     // paired bracket
	std::vector<cp_t> canon;     // singleton canonical decomposition (fully) or itself
	std::vector<cp_t> mirror;    // or itself
	std::map<cp_t, std::vector<cp_t>> lower, upper, title; // only if different from itself
	bool load(const std::string &dir, std::string &err);
	const std::vector<cp_t> *map_of(int which, cp_t c) const
	{
		const auto &m = which == 0 ? lower : which == 1 ? upper : title;
		auto it = m.find(c);
		return it == m.end() ? nullptr : &it->second;
	}
	// property kinds for out-of-range code points: no special property
	uint8_t g(cp_t c) const { return c < NCP ? gcb[c] : (uint8_t)G_XX; }
	uint8_t w(cp_t c) const { return c < NCP ? wb[c] : (uint8_t)W_XX; }
	uint8_t s(cp_t c) const { return c < NCP ? sb[c] : (uint8_t)S_XX; }
	uint8_t l(cp_t c) const { return c < NCP ? lb[c] : (uint8_t)L_AL; }
	uint8_t b(cp_t c) const { return c < NCP ? bc[c] : (uint8_t)B_L; }
	bool ep(cp_t c) const { return c < NCP && extpict[c]; }
	bool ea(cp_t c) const { return c < NCP && wide[c]; }
	bool epcn(cp_t c) const { return c < NCP && extpict[c] && cn[c]; }
	bool is_cased(cp_t c) const { return c < NCP && cased[c]; }
	bool is_ign(cp_t c) const { return c < NCP && ignorable[c]; }
	cp_t mir(cp_t c) const { return c < NCP ? mirror[c] : c; }
	int bt(cp_t c) const { return c < NCP ? btype[c] : 0; }
	cp_t bcanon(cp_t c) const { return c < NCP ? canon[c] : c; }
};

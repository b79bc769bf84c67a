#include "ucd.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>

const char *const gcb_name[] = { "Other", "CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend",
	"SpacingMark", "L", "V", "T", "LV", "LVT" };
const char *const wb_name[] = { "Other", "CR", "LF", "Newline", "Extend", "Format", "ZWJ", "Regional_Indicator", "Katakana",
	"Hebrew_Letter", "ALetter", "Single_Quote", "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric",
	"ExtendNumLet", "WSegSpace" };
const char *const sb_name[] = { "Other", "CR", "LF", "Sep", "Extend", "Format", "Sp", "Lower", "Upper", "OLetter",
	"Numeric", "ATerm", "SContinue", "STerm", "Close" };
const char *const lb_name[] = { "BK", "CR", "LF", "NL", "SP", "ZW", "ZWJ", "CM", "WJ", "GL", "BA", "BB", "B2", "HY", "CB",
	"CL", "CP", "EX", "IN", "NS", "OP", "QU", "IS", "NU", "PO", "PR", "SY", "AL", "HL", "ID", "EB", "EM", "H2",
	"H3", "JL", "JV", "JT", "RI", "AI", "CJ", "SA", "SG", "XX" };
const char *const bc_name[] = { "L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE",
	"LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI" };

static std::string trim(const std::string &s)
{
	size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
	return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
typedef std::vector<std::string> Fields;
// calls f(fields, comment, rawline) for each line; '#' starts a comment
static bool each_line(const std::string &path, std::string &err, const std::function<void(const Fields &, const std::string &)> &f)
{
	FILE *fp = fopen(path.c_str(), "r");
	if (!fp) {
		err = "cannot open " + path;
		return false;
	}
	char *buf = nullptr;
	size_t cap = 0;
	ssize_t n;
	while ((n = getline(&buf, &cap, fp)) >= 0) {
		while (n > 0 && (buf[n - 1] == '\n' || buf[n - 1] == '\r'))
			buf[--n] = 0;
		std::string line(buf, n), comment;
		size_t h = line.find('#');
		if (h != std::string::npos) {
			comment = trim(line.substr(h + 1));
			line = line.substr(0, h);
		}
		Fields v;
		if (trim(line).empty()) {
			f(v, comment);
			continue;
		}
		size_t p = 0;
		for (;;) {
			size_t q = line.find(';', p);
			if (q == std::string::npos) {
				v.push_back(trim(line.substr(p)));
				break;
			}
			v.push_back(trim(line.substr(p, q - p)));
			p = q + 1;
		}
		f(v, comment);
	}
	free(buf);
	fclose(fp);
	return true;
}
static void range(const std::string &s, cp_t &a, cp_t &b)
{
	size_t p = s.find("..");
	a = (cp_t)strtoul(s.c_str(), nullptr, 16);
	b = p == std::string::npos ? a : (cp_t)strtoul(s.c_str() + p + 2, nullptr, 16);
}
static std::vector<cp_t> cps(const std::string &s)
{
	std::vector<cp_t> r;
	const char *p = s.c_str();
	char *e;
	for (;;) {
		unsigned long v = strtoul(p, &e, 16);
		if (e == p)
			break;
		r.push_back((cp_t)v);
		p = e;
	}
	return r;
}
static int lookup(const std::string &s, const char *const *names, int n)
{
	for (int i = 0; i < n; i++)
		if (s == names[i])
			return i;
	return -1;
}
static bool simple(const std::string &path, std::string &err, const char *const *names, int n, std::vector<uint8_t> &out)
{
	std::string bad;
	bool ok = each_line(path, err, [&](const Fields &f, const std::string &) {
		if (f.size() < 2)
			return;
		int k = lookup(f[1], names, n);
		if (k < 0) {
			bad = f[1];
			return;
		}
		cp_t a, b;
		range(f[0], a, b);
		for (cp_t c = a; c <= b && c < NCP; c++)
			out[c] = (uint8_t)k;
	});
	if (ok && !bad.empty()) {
		err = path + ": unknown value " + bad;
		return false;
	}
	return ok;
}

bool Ucd::load(const std::string &dir, std::string &err)
{
	gcb.assign(NCP, G_XX), wb.assign(NCP, W_XX), sb.assign(NCP, S_XX), lb.assign(NCP, L_XX), bc.assign(NCP, B_L);
	extpict.assign(NCP, 0), wide.assign(NCP, 0), cn.assign(NCP, 1), mark.assign(NCP, 0);
	cased.assign(NCP, 0), ignorable.assign(NCP, 0), btype.assign(NCP, 0);
	bpair.resize(NCP), canon.resize(NCP), mirror.resize(NCP);
	for (cp_t c = 0; c < NCP; c++)
		bpair[c] = canon[c] = mirror[c] = c;
	lower.clear(), upper.clear(), title.clear();

	if (!simple(dir + "/GraphemeBreakProperty.txt", err, gcb_name, G_N, gcb) ||
	    !simple(dir + "/WordBreakProperty.txt", err, wb_name, W_N, wb) ||
	    !simple(dir + "/SentenceBreakProperty.txt", err, sb_name, S_N, sb) ||
	    !simple(dir + "/LineBreak.txt", err, lb_name, L_N, lb))
		return false;
	bool ok = each_line(dir + "/emoji-data.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() >= 2 && f[1] == "Extended_Pictographic") {
			cp_t a, b;
			range(f[0], a, b);
			for (cp_t c = a; c <= b && c < NCP; c++)
				extpict[c] = 1;
		}
	});
	ok = ok && each_line(dir + "/EastAsianWidth.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() >= 2) {
			cp_t a, b;
			range(f[0], a, b);
			for (cp_t c = a; c <= b && c < NCP; c++)
				wide[c] = f[1] == "F" || f[1] == "W" || f[1] == "H";
		}
	});
	ok = ok && each_line(dir + "/DerivedCoreProperties.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() >= 2 && (f[1] == "Cased" || f[1] == "Case_Ignorable")) {
			cp_t a, b;
			range(f[0], a, b);
			for (cp_t c = a; c <= b && c < NCP; c++)
				(f[1] == "Cased" ? cased : ignorable)[c] = 1;
		}
	});
	// bidi class: @missing defaults first, in file order, then explicit values
	static const char *const longname[] = { "Left_To_Right", "Right_To_Left", "Arabic_Letter", "European_Number",
		"European_Separator", "European_Terminator", "Arabic_Number", "Common_Separator", "Nonspacing_Mark",
		"Boundary_Neutral", "Paragraph_Separator", "Segment_Separator", "White_Space", "Other_Neutral",
		"Left_To_Right_Embedding", "Left_To_Right_Override", "Right_To_Left_Embedding", "Right_To_Left_Override",
		"Pop_Directional_Format", "Left_To_Right_Isolate", "Right_To_Left_Isolate", "First_Strong_Isolate",
		"Pop_Directional_Isolate" };
	std::string bad;
	for (int pass = 0; ok && pass < 2; pass++)
		ok = each_line(dir + "/DerivedBidiClass.txt", err, [&](const Fields &f, const std::string &com) {
			cp_t a, b;
			int k;
			if (pass == 0 && f.empty() && com.compare(0, 9, "@missing:") == 0) {
				size_t p = com.find(';');
				if (p == std::string::npos)
					return;
				range(trim(com.substr(9, p - 9)), a, b);
				k = lookup(trim(com.substr(p + 1)), longname, B_N);
			} else if (pass == 1 && f.size() >= 2) {
				range(f[0], a, b);
				k = lookup(f[1], bc_name, B_N);
			} else {
				return;
			}
			if (k < 0) {
				bad = f.size() >= 2 ? f[1] : com;
				return;
			}
			for (cp_t c = a; c <= b && c < NCP; c++)
				bc[c] = (uint8_t)k;
		});
	if (!bad.empty()) {
		err = "DerivedBidiClass: " + bad;
		return false;
	}
	ok = ok && each_line(dir + "/BidiBrackets.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() >= 3 && (f[2] == "o" || f[2] == "c")) {
			cp_t c = cps(f[0]).at(0);
			btype[c] = f[2] == "o" ? 1 : 2;
			bpair[c] = cps(f[1]).at(0);
		}
	});
	ok = ok && each_line(dir + "/BidiMirroring.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() >= 2)
			mirror[cps(f[0]).at(0)] = cps(f[1]).at(0);
	});
	std::vector<cp_t> dec(NCP, 0);
	cp_t first = 0;
	bool in_range = false;
	ok = ok && each_line(dir + "/UnicodeData.txt", err, [&](const Fields &f, const std::string &) {
		if (f.size() < 15)
			return;
		cp_t c = cps(f[0]).at(0), a = c;
		const std::string &nm = f[1];
		if (nm.size() > 8 && nm.compare(nm.size() - 8, 8, ", First>") == 0) {
			first = c, in_range = true;
			return;
		}
		if (in_range)
			a = first, in_range = false;
		for (cp_t x = a; x <= c && x < NCP; x++) {
			cn[x] = 0;
			mark[x] = f[2] == "Mn" || f[2] == "Mc";
		}
		if (a != c)
			return;
		if (!f[5].empty() && f[5][0] != '<') {
			auto d = cps(f[5]);
			if (d.size() == 1)
				dec[c] = d[0];
		}
		if (!f[12].empty() && cps(f[12])[0] != c)
			upper[c] = cps(f[12]);
		if (!f[13].empty() && cps(f[13])[0] != c)
			lower[c] = cps(f[13]);
		const std::string &t = f[14].empty() ? f[12] : f[14];
		if (!t.empty() && cps(t)[0] != c)
			title[c] = cps(t);
	});
	ok = ok && each_line(dir + "/SpecialCasing.txt", err, [&](const Fields &f, const std::string &) {
		// code; lower; title; upper; (condition_list;)?
		if (f.size() < 4 || (f.size() >= 5 && !f[4].empty()))
			return;
		cp_t c = cps(f[0]).at(0);
		std::map<cp_t, std::vector<cp_t>> *m[3] = { &lower, &title, &upper };
		for (int i = 0; i < 3; i++) {
			auto v = cps(f[1 + i]);
			m[i]->erase(c);
			if (!(v.size() == 1 && v[0] == c))
				(*m[i])[c] = v;
		}
	});
	if (!ok)
		return false;
	for (cp_t c = 0; c < NCP; c++) {
		cp_t d = c;
		for (int k = 0; k < 8 && dec[d]; k++)
			d = dec[d];
		canon[c] = d;
	}
	// LB1
	for (cp_t c = 0; c < NCP; c++) {
		switch (lb[c]) {
		case L_AI: case L_SG: case L_XX:
			lb[c] = L_AL;
			break;
		case L_CJ:
			lb[c] = L_NS;
			break;
		case L_SA:
			lb[c] = mark[c] ? L_CM : L_AL;
			break;
		default:
			break;
		}
	}
	return true;
}

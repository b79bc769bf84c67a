// G02, G03: UTF-8 decoding and encoding
#include "gen.hpp"

static Guard gsrc, gdst;
static bool decode_bad(const uint8_t *bytes, size_t n, std::string &msg)
{
	uint8_t *s = (uint8_t *)gsrc.end_aligned(n, 1);
	if (n)
		memcpy(s, bytes, n);
	cp_t e, g = 0xDEADBEEF;
	size_t el = oracle_decode(bytes, n, e);
	size_t gl = grapheme_decode_utf8((const char *)s, n, &g);
	size_t gn = grapheme_decode_utf8((const char *)s, n, nullptr);
	if (gl != el || g != e) {
		msg = fmt("decoding [%s] gives U+%04X, %zu; expected U+%04X, %zu", hexb(bytes, n).c_str(), g, gl, e, el);
		return true;
	}
	if (gn != el) {
		msg = fmt("decoding [%s] without code point returns %zu instead of %zu", hexb(bytes, n).c_str(), gn, el);
		return true;
	}
	if (n && memcmp(s, bytes, n)) {
		msg = fmt("decoding [%s] changed the input", hexb(bytes, n).c_str());
		return true;
	}
	return false;
}
static void op_decode(const Case &c, Verdict &v)
{
	uint8_t b[4096];
	size_t n = std::min<size_t>(c.in.size(), sizeof b);
	for (size_t i = 0; i < n; i++)
		b[i] = (uint8_t)c.in[i];
	std::string m;
	v.trivial = n == 0 || b[0] < 0x80;
	if (decode_bad(b, n, m))
		v.fail("decode", m);
	cp_t x = 5;
	if (grapheme_decode_utf8(nullptr, n, &x) != 0 || x != 0xFFFD || grapheme_decode_utf8((const char *)b, 0, &x) != 0 || x != 0xFFFD)
		v.fail("decode-empty", "decoding nothing is not U+FFFD, 0");
}
static OpReg r_dec("decode", op_decode, true);

// declared length p0, far beyond what follows
static void op_declared(const Case &c, Verdict &v)
{
	static Huge h;
	uint8_t *s = (uint8_t *)h.get(8), b[8] = { 0 };
	size_t n = std::min<size_t>(c.in.size(), 8), L = (size_t)c.p[0];
	if (!s || L > HUGE_BYTES)
		return;
	for (size_t i = 0; i < n; i++)
		b[i] = (uint8_t)c.in[i];
	memcpy(s, b, 8);
	cp_t e, g = 0xDEADBEEF;
	size_t el = oracle_decode(b, 8, e), gl = grapheme_decode_utf8((const char *)s, L, &g);
	if (gl != el || g != e)
		v.fail("decode", fmt("decoding [%s] and more, %zu bytes, gives U+%04X, %zu; expected U+%04X, %zu", hexb(b, 8).c_str(), L, g, gl, e, el));
}
static OpReg r_dcl("decode-declared-length", op_declared, true);

// four bytes b0 b1 * *: p0 = b0<<8|b1, all 65536 continuations
static void op_decode_block(const Case &c, Verdict &v)
{
	uint8_t *s = (uint8_t *)gsrc.end_aligned(4, 1);
	uint8_t b[4] = { (uint8_t)(c.p[0] >> 8), (uint8_t)c.p[0], 0, 0 };
	v.trivial = b[0] < 0x80;
	for (unsigned x = 0; x < 65536; x++) {
		b[2] = (uint8_t)(x >> 8);
		b[3] = (uint8_t)x;
		memcpy(s, b, 4);
		cp_t e, g = 0xDEADBEEF;
		size_t el = oracle_decode(b, 4, e), gl = grapheme_decode_utf8((const char *)s, 4, &g);
		if (gl != el || g != e) {
			v.fail("decode", fmt("decoding [%s] gives U+%04X, %zu; expected U+%04X, %zu", hexb(b, 4).c_str(), g, gl, e, el));
			return;
		}
	}
}
static OpReg r_decb("decode-block", op_decode_block, true);

static void gen_g02(Ctx &ctx)
{
	Case c;
	c.op = op_id("decode");
	// all strings of up to two bytes, all three-byte strings by block, then boundary values
	std::vector<uint32_t> all(256), edge = { 0x00, 0x01, 0x0A, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xA1, 0xBE, 0xBF, 0xC0, 0xC1,
		0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF };
	for (unsigned i = 0; i < 256; i++)
		all[i] = i;
	if (ctx.worker == 0)
		ctx.run(c);
	enumerate(ctx, all, 1, c.in, [&] { ctx.run(c); });
	enumerate(ctx, all, 2, c.in, [&] { ctx.run(c); });
	enumerate(ctx, all, 3, c.in, [&] { ctx.run(c); });
	for (unsigned a = 0; a < 65536; a++) {
		if (!ctx.mine(a))
			continue;
		if ((a >> 8) < 0xC0 && !ctx.thorough && (a & 15))
			continue;
		for (uint32_t x : edge)
			for (uint32_t y : edge) {
				c.in = { a >> 8, a & 255, x, y };
				if (!ctx.thorough && (a >> 8) < 0xE0 && x != 0x80)
					continue;
				ctx.run(c);
			}
	}
	// longer strings: what follows the sequence must not matter
	for (uint64_t i = 0; i < (ctx.thorough ? 20000000u : 1000000u) / ctx.nworkers; i++) {
		random_bytes(ctx.rng, 64, c.in, nullptr);
		ctx.run(c);
	}
	c.op = op_id("decode-declared-length");
	for (uint64_t i = 0; i < (ctx.thorough ? 200000u : 20000u) / ctx.nworkers; i++) {
		random_bytes(ctx.rng, 8, c.in, nullptr);
		c.p[0] = (int64_t)huge_count(ctx.rng);
		ctx.run(c);
		ctx.count("declared lengths around 2^16, 2^31, 2^32 and 2^33");
	}
	c.p[0] = 0;
	c.op = op_id("decode");
	// every code point, encoded by the model, whole and cut at every length
	for (cp_t x = 0; x < 0x110000; x++) {
		if (!ctx.mine(x))
			continue;
		uint8_t b[4];
		size_t l = oracle_encode(x, b);
		if (x >= 0xD800 && x <= 0xDFFF) {
			b[0] = 0xED, b[1] = (uint8_t)(0x80 | (x >> 6 & 63)), b[2] = (uint8_t)(0x80 | (x & 63));
			l = 3;
		}
		for (size_t k = l; k >= 1; k--) {
			c.in.assign(b, b + k);
			ctx.run(c);
			if (!ctx.thorough && (x & 7))
				break;
		}
	}
	// all four-byte strings that begin with a lead byte or worse (thorough: all 2^32)
	c = Case();
	c.op = op_id("decode-block");
	for (unsigned a = ctx.thorough ? 0 : 0xC000; a < 65536; a++)
		if (ctx.mine(a)) {
			c.p[0] = a;
			ctx.run(c);
			ctx.count("four-byte strings decoded exhaustively", 65536);
		}
}
static PropReg p2("G02", gen_g02,
                  "byte strings: all of up to 3 bytes, all 4-byte strings whose first byte is above BF (thorough: all 2^32), every code point whole and cut, "
                  "random longer ones; source flush with an inaccessible page; non-trivial: the first byte is not ASCII", {});

static void op_encode(const Case &c, Verdict &v)
{
	cp_t cp = (cp_t)c.p[0];
	size_t cap = (size_t)c.p[1];
	bool null = c.p[2];
	uint8_t e[4];
	size_t el = oracle_encode(cp, e);
	v.trivial = cp < 0x80;
	uint8_t *d = (uint8_t *)gdst.end_aligned(cap + 16, 1) + 16; // 16 canary bytes before, guard page after
	memset(d - 16, 0xA5, cap + 16);
	size_t gl = grapheme_encode_utf8(cp, null ? nullptr : (char *)d, cap);
	if (gl != el) {
		v.fail("encode-length", fmt("encoding U+%04X into %zu%s bytes returns %zu instead of %zu", cp, cap, null ? " (NULL)" : "", gl, el));
		return;
	}
	size_t wrote = !null && cap >= el ? el : 0;
	if (wrote && memcmp(d, e, el)) {
		v.fail("encode-bytes", fmt("encoding U+%04X writes [%s] instead of [%s]", cp, hexb(d, el).c_str(), hexb(e, el).c_str()));
		return;
	}
	for (size_t i = 0; i < 16; i++)
		if (d[-1 - (ptrdiff_t)i] != 0xA5)
			v.fail("encode-oob", "wrote before the buffer");
	for (size_t i = wrote; i < cap; i++)
		if (d[i] != 0xA5) {
			v.fail("encode-oob", fmt("encoding U+%04X with room for %zu bytes changed byte %zu", cp, cap, i));
			return;
		}
	if (wrote) {
		cp_t back = 1;
		size_t bl = grapheme_decode_utf8((char *)d, el, &back);
		bool scalar = cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF);
		if (bl != el || back != (scalar ? cp : 0xFFFD))
			v.fail("roundtrip", fmt("U+%04X encodes to [%s], which decodes to U+%04X, %zu", cp, hexb(d, el).c_str(), back, bl));
	}
}
static OpReg r_enc("encode", op_encode, false);
// capacity p1 far beyond the need
static void op_hugeenc(const Case &c, Verdict &v)
{
	static Huge h;
	cp_t cp = (cp_t)c.p[0];
	size_t cap = (size_t)c.p[1];
	uint8_t e[4], *d = (uint8_t *)h.get(64);
	if (!d || cap > HUGE_BYTES)
		return;
	size_t el = oracle_encode(cp, e), gl = grapheme_encode_utf8(cp, (char *)d, cap), gn = grapheme_encode_utf8(cp, nullptr, cap);
	bool dirty = false;
	for (size_t i = el; i < 64; i++)
		dirty = dirty || d[i];
	if (gl != el || gn != el || memcmp(d, e, el) || dirty)
		v.fail("encode-bytes", fmt("encoding U+%04X into %zu bytes returns %zu (%zu with NULL) and writes [%s]; expected %zu [%s]", cp, cap, gl, gn,
		                           hexb(d, 8).c_str(), el, hexb(e, el).c_str()));
}
static OpReg r_henc("encode-huge-buffer", op_hugeenc, false);
// p0: upper 16 bits of the argument; all lower halves
static void op_encode_block(const Case &c, Verdict &v)
{
	uint8_t *d = (uint8_t *)gdst.end_aligned(4, 1);
	for (uint32_t x = 0; x < 65536; x++) {
		cp_t cp = (cp_t)c.p[0] << 16 | x;
		uint8_t e[4];
		size_t el = oracle_encode(cp, e), gl = grapheme_encode_utf8(cp, (char *)d, 4);
		if (gl != el || memcmp(d, e, el)) {
			v.fail("encode-bytes", fmt("encoding U+%04X gives %zu [%s] instead of %zu [%s]", cp, gl, hexb(d, gl > 4 ? 4 : gl).c_str(), el,
			                           hexb(e, el).c_str()));
			return;
		}
	}
}
static OpReg r_encb("encode-block", op_encode_block, false);
static void gen_g03(Ctx &ctx)
{
	Case c;
	c.op = op_id("encode");
	auto all = [&](cp_t x, bool full) {
		c.p[0] = x;
		for (int cap = 0; cap <= 6; cap++) {
			if (!full && cap != 4 && cap != (int)(x & 3))
				continue;
			c.p[1] = cap;
			c.p[2] = 0;
			ctx.run(c);
		}
		c.p[1] = full ? 4 : x % 5;
		c.p[2] = 1;
		ctx.run(c);
	};
	for (cp_t x = 0; x < 0x110100; x++)
		if (ctx.mine(x))
			all(x, ctx.thorough || x < 0x3000 || (x & 0xFF) < 3 || (x & 0xFF) > 0xFC || x % 16 == 0);
	for (uint32_t i = 0; i < (ctx.thorough ? 4000000u : 200000u); i++)
		if (ctx.mine(i))
			all((cp_t)ctx.rng.next(), false);
	for (int b = 0; b < 32; b++)
		for (int d = -2; d <= 2; d++)
			if (ctx.mine(b))
				all((cp_t)((1ull << b) + d), true);
	c = Case();
	c.op = op_id("encode-huge-buffer");
	for (uint64_t i = 0; i < (ctx.thorough ? 200000u : 20000u) / ctx.nworkers; i++) {
		c.p[0] = ctx.rng.chance(1, 2) ? ctx.rng.below(0x110000) : ctx.rng.below(0x1000);
		c.p[1] = (int64_t)huge_count(ctx.rng);
		ctx.run(c);
		ctx.count("capacities around 2^16, 2^31, 2^32 and 2^33");
	}
	c = Case();
	c.op = op_id("encode-block");
	for (uint32_t h = 0; h < 65536; h++)
		if (ctx.mine(h) && (ctx.thorough || h < 0x200 || h % 16 == 0)) {
			c.p[0] = h;
			ctx.run(c);
			ctx.count("arguments encoded exhaustively by block", 65536);
		}
}
static PropReg p3("G03", gen_g03,
                  "arguments x buffer capacities 0-6 and NULL: all code points, random and boundary 32-bit values, whole 65536-blocks (all 2^32 in the "
                  "thorough tier); canaries before, guard page behind; the bytes are decoded again; non-trivial: not ASCII", {});

/* walk NAME: one call over a text of more than 2^32 elements (bytes for UTF-8), made of one page repeated in the address
   space and a short tail.  0 as expected, 1 not, 3 the address space is not to be had. */
#define _GNU_SOURCE
#include <grapheme.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define CHUNK ((size_t)16 << 20)
/* n copies of the unit (4 bytes), followed by the tail, followed by an inaccessible page */
static void *text(const void *unit, size_t n, const void *tail, size_t taillen)
{
	size_t body = n * 4, whole = (body + taillen + CHUNK - 1) / CHUNK * CHUNK, pad = (whole - body - taillen) & ~(size_t)3, o, i;
	int fd = memfd_create("walk", 0);
	char *m, *b;

	/* the text ends flush with the area; what is before it in the first chunk is not part of it */
	if (fd < 0 || ftruncate(fd, (off_t)(2 * CHUNK)) || (m = mmap(NULL, 2 * CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)) == MAP_FAILED)
		exit(3);
	for (i = 0; i < 2 * CHUNK; i += 4)
		memcpy(m + i, unit, 4);
	/* the second chunk of the file is the last one of the area */
	memcpy(m + CHUNK + CHUNK - (whole - body - pad), tail, taillen);
	if ((b = mmap(NULL, whole + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) == MAP_FAILED)
		exit(3);
	for (o = 0; o < whole; o += CHUNK)
		if (mmap(b + o, CHUNK, PROT_READ, MAP_SHARED | MAP_FIXED, fd, o + CHUNK < whole ? 0 : (off_t)CHUNK) == MAP_FAILED)
			exit(3);
	munmap(m, 2 * CHUNK);
	return b + pad;
}
/* more than 2^32 elements of the given size, all equal to common, but for number 1000 of every CHUNK bytes */
static void *early(size_t size, uint_least32_t common, uint_least32_t other, size_t n)
{
	size_t whole = (n * size + CHUNK - 1) / CHUNK * CHUNK, o, i;
	int fd = memfd_create("walk", 0);
	char *m, *b;

	if (fd < 0 || ftruncate(fd, (off_t)CHUNK) || (m = mmap(NULL, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)) == MAP_FAILED)
		exit(3);
	for (i = 0; i < CHUNK; i += size)
		if (size == 1)
			m[i] = (char)(i == 1000 ? other : common);
		else
			memcpy(m + i, i == 4000 ? &other : &common, 4);
	if ((b = mmap(NULL, whole, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) == MAP_FAILED)
		exit(3);
	for (o = 0; o < whole; o += CHUNK)
		if (mmap(b + o, CHUNK, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			exit(3);
	munmap(m, CHUNK);
	return b;
}
static int fails;
static void eq(const char *what, size_t got, size_t want)
{
	printf("%s: %zu, expected %zu\n", what, got, want);
	fails |= got != want;
}

int main(int argc, char **argv)
{
	/* U+E0100, a variation selector: Extend, CM, NSM, uncased */
	static const uint_least32_t u = 0xE0100, tail_s[] = { '.', ' ', 'B' }, tail_r[] = { 0x5D0, 0x2029, 'a' };
	static const char u8[] = "\xF3\xA0\x84\x80";
	const char *f = argc > 1 ? argv[1] : "";
	size_t n32 = ((size_t)1 << 32) + 3, n30 = ((size_t)1 << 30) + 3, l = 0, r;
	char d[64];
	enum grapheme_bidirectional_direction dir = (enum grapheme_bidirectional_direction)9;

	if (sizeof(size_t) < 8)
		return 3;
#define SEG(NAME, EXTRA) \
	if (!strcmp(f, #NAME)) { \
		eq("grapheme_next_" #NAME, grapheme_next_##NAME(text(&u, n32, tail_s, sizeof(tail_s)), n32 + 3), n32 + EXTRA); \
		return fails; \
	} \
	if (!strcmp(f, #NAME "_utf8")) { \
		eq("grapheme_next_" #NAME "_utf8", grapheme_next_##NAME##_utf8(text(u8, n30, ". B", 3), n30 * 4 + 3), n30 * 4 + EXTRA); \
		return fails; \
	}
	SEG(character_break, 0)
	SEG(word_break, 0)
	SEG(sentence_break, 2)
	SEG(line_break, 2)
#define CONV(NAME, T) \
	if (!strcmp(f, "to_" #NAME)) { \
		memset(d, 'x', sizeof(d)); \
		eq("grapheme_to_" #NAME "_utf8", grapheme_to_##NAME##_utf8(text(u8, n30, T, 2), n30 * 4 + 2, d, 31), n30 * 4 + 2); \
		for (r = 0; r < 28; r++) \
			fails |= d[r] != u8[r % 4]; \
		fails |= d[28] != 0 || d[31] != 'x'; \
		return fails; \
	} \
	if (!strcmp(f, "to_" #NAME "_cp")) { \
		uint_least32_t o[8] = { 9, 9, 9, 9, 9, 9, 9, 9 }; \
		const uint_least32_t t[] = { (unsigned char)T[0], (unsigned char)T[1] }; \
		eq("grapheme_to_" #NAME, grapheme_to_##NAME(text(&u, n32, t, sizeof(t)), n32 + 2, o, 7), n32 + 2); \
		for (r = 0; r < 6; r++) \
			fails |= o[r] != u; \
		fails |= o[6] != 0 || o[7] != 9; \
		return fails; \
	} \
	if (!strcmp(f, "is_" #NAME)) { \
		eq("grapheme_is_" #NAME "_utf8", grapheme_is_##NAME##_utf8(text(u8, n30, T, 2), n30 * 4 + 2, &l), 0); \
		eq("length from grapheme_is_" #NAME "_utf8", l, n30 * 4); \
		return fails; \
	}
#define EARLY(NAME, X) \
	if (!strcmp(f, "early_" #NAME)) { \
		eq("grapheme_is_" #NAME, grapheme_is_##NAME(early(4, ' ', X, n32 + 7), n32 + 7, &l), 0); \
		eq("length from grapheme_is_" #NAME, l, 1000); \
		eq("grapheme_is_" #NAME "_utf8", grapheme_is_##NAME##_utf8(early(1, ' ', X, n32 + 7), n32 + 7, &l), 0); \
		eq("length from grapheme_is_" #NAME "_utf8", l, 1000); \
		return fails; \
	}
	EARLY(lowercase, 'A')
	EARLY(uppercase, 'a')
	EARLY(titlecase, 'a')
	CONV(lowercase, "Ab")
	CONV(uppercase, "aB")
	CONV(titlecase, "aB")
	if (!strcmp(f, "early_preprocess")) {
		uint_least32_t w[4] = { 0, 0, 0, 0x1234 };
		r = grapheme_bidirectional_preprocess_paragraph(early(4, '!', 0x2029, n32 + 7), n32 + 7, GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, w, 3, &dir);
		eq("grapheme_bidirectional_preprocess_paragraph", r, 1001);
		fails |= w[3] != 0x1234;
		return fails;
	}
	if (!strcmp(f, "levels") || !strcmp(f, "reorder")) {
		uint_least32_t c = 0x5D0, w = 0, o[5] = { 7, 7, 7, 7, 7 };
		int_least8_t v[5] = { 77, 77, 77, 77, 77 };
		const uint_least32_t *d;
		grapheme_bidirectional_preprocess_paragraph(&c, 1, GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, &w, 1, &dir);
		d = early(4, w, w, n32);
		if (!strcmp(f, "levels")) {
			eq("grapheme_bidirectional_get_line_embedding_levels", grapheme_bidirectional_get_line_embedding_levels(d, n32, v, 4), n32);
			for (r = 0; r < 5; r++)
				fails |= v[r] != (r < 4 ? 1 : 77);
		} else {
			eq("grapheme_bidirectional_reorder_line", grapheme_bidirectional_reorder_line(early(4, c, c, n32), d, n32, o, 4), n32);
			for (r = 0; r < 5; r++)
				fails |= o[r] != (r < 4 ? GRAPHEME_INVALID_CODEPOINT : 7);
		}
		return fails;
	}
	if (!strcmp(f, "preprocess")) {
		uint_least32_t w[4] = { 0, 0, 0, 0x1234 };
		r = grapheme_bidirectional_preprocess_paragraph(text(&u, n32, tail_r, sizeof(tail_r)), n32 + 3, GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL, w, 0, &dir);
		eq("grapheme_bidirectional_preprocess_paragraph", r, n32 + 2);
		eq("resolved direction", dir, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL);
		return fails;
	}
	return 2;
}

/* CBMC harness for the C function of the cgo preamble (included as target.c).
   CALL(r, n) calls it on the NUL-terminated text r of n bytes and leaves the result in r. */
#include <stddef.h>
#include "target.c"
#include "call.h"
#ifndef CBMC
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#endif

#ifdef CBMC
unsigned char nondet_uchar(void);
#define ASSUME __CPROVER_assume
#define CHECK(c, m) __CPROVER_assert(c, m)
#else
#define ASSUME(c) do { if (!(c)) { printf("assume\n"); exit(0); } } while (0)
#define CHECK(c, m) do { if (!(c)) { printf("violation: %s\n", m); exit(1); } } while (0)
#endif

/* is the NUL-free text of n bytes valid UTF-8? */
static int valid_utf8(const unsigned char *t, size_t n)
{
	unsigned char lo = 0x80, hi = 0xBF; /* range of the next continuation byte */
	int rem = 0;                        /* continuation bytes still missing */
	for (size_t i = 0; i < n; i++) {
		unsigned char c = t[i];
		if (rem > 0) {
			if (c < lo || c > hi) return 0;
			lo = 0x80; hi = 0xBF; rem--;
		} else if (c >= 0x80) {
			if (c < 0xC2 || c > 0xF4) return 0;
			rem = c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
			if (c == 0xE0) lo = 0xA0;
			if (c == 0xED) hi = 0x9F;
			if (c == 0xF0) lo = 0x90;
			if (c == 0xF4) hi = 0x8F;
		}
	}
	return rem == 0;
}

/* reference: byte i of the lower-cased text, for valid text. U+0410..U+041F are D0 90..9F and become D0 B0..BF,
   U+0420..U+042F are D0 A0..AF and become D1 80..8F, U+0401 is D0 81 and becomes D1 91. */
static unsigned char lower_ref(const unsigned char *t, size_t i)
{
	unsigned char c = t[i];
	if (c >= 'A' && c <= 'Z') return c + 32;
	if (c == 0xD0 && (t[i + 1] >= 0xA0 && t[i + 1] <= 0xAF || t[i + 1] == 0x81)) return 0xD1;
	if (i > 0 && t[i - 1] == 0xD0) {
		if (c >= 0x90 && c <= 0x9F) return c + 32;
		if (c >= 0xA0 && c <= 0xAF) return c - 32;
		if (c == 0x81) return 0x91;
	}
	return c;
}

unsigned char in[N + 4];
size_t len;

static void body(void)
{
#ifdef CBMC
	char s[N + 1]; /* exactly as large as the text */
#else
	char *s = malloc(len + 1);
#endif
	for (size_t i = 0; i <= len; i++) s[i] = (char)in[i];
	int valid = valid_utf8(in, len);
	char *r = s;
	CALL(r, len);
	if (valid)
		for (size_t i = 0; i <= len; i++) CHECK((unsigned char)r[i] == lower_ref(in, i), "wrong lower-case text");
#ifdef WITNESS
	if (valid) CHECK(0, "witness");
#endif
}

#ifdef CBMC
void harness(void)
{
	len = N;
	for (size_t i = 0; i < N; i++) {
		in[i] = nondet_uchar();
		ASSUME(in[i] != 0);
	}
	body();
}
#ifdef VALIDATE
#include "validate.h" /* struct { size_t n; unsigned char in[..], out[..]; } cases[] : outputs of the natively compiled function */
void validate(void)
{
	for (int c = 0; c < CASES; c++) {
		char s[N + 1];
		for (size_t i = 0; i <= cases[c].n; i++) s[i] = (char)cases[c].in[i];
		char *r = s;
		CALL(r, cases[c].n);
		for (size_t i = 0; i <= cases[c].n; i++) CHECK((unsigned char)r[i] == cases[c].out[i], "encoding differs from native");
	}
}
#endif
#else
/* native replay: argv[1] is the text in hex; with a second argument the result is printed in hex */
int main(int argc, char **argv)
{
	const char *h = argv[1];
	for (len = 0; h[2 * len]; len++) {
		unsigned x;
		sscanf(h + 2 * len, "%2x", &x);
		in[len] = x;
	}
	if (argc > 2) {
		char *s = malloc(len + 1), *r = s;
		memcpy(s, in, len + 1);
		CALL(r, len);
		for (; *r; r++) printf("%02x", (unsigned char)*r);
		printf("\n");
		return 0;
	}
	body();
	printf("ok\n");
	return 0;
}
#endif

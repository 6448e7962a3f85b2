/* Harness side of the C library: the randomness the library asks for is a
 * tape set by the harness, and every draw is recorded. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static unsigned char tape[1 << 16];
static size_t tape_len, tape_pos;
static unsigned char drawn[1 << 16];
static size_t drawn_len;
static unsigned long long draws[1024];
static size_t ndraws;

void hx_tape(const unsigned char *p, size_t n)
{
	if (n > sizeof tape) n = sizeof tape;
	memcpy(tape, p, n);
	tape_len = n; tape_pos = 0; drawn_len = 0; ndraws = 0;
}
size_t hx_ndraws(void) { return ndraws; }
unsigned long long hx_draw(size_t i) { return draws[i]; }
const unsigned char *hx_drawn(void) { return drawn; }

int randombytes(unsigned char *x, unsigned long long xlen)
{
	if (ndraws < 1024) draws[ndraws++] = xlen;
	for (unsigned long long i = 0; i < xlen; i++) {
		unsigned char b = tape_len ? tape[tape_pos % tape_len] : 0;
		tape_pos++;
		x[i] = b;
		if (drawn_len < sizeof drawn) drawn[drawn_len++] = b;
	}
	return 0;
}
void randombytes_init(unsigned char *e, unsigned char *p, int s) { (void)e; (void)p; (void)s; }

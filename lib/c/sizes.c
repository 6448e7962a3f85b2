#include <stddef.h>
#include <stdint.h>
#include "api.h"
#include "inner.h"
size_t hx_sizeof_shake(void) { return sizeof(inner_shake256_context); }
size_t hx_sizeof_keccak(void) { return sizeof(inner_keccak256_prng_ctx); }
size_t hx_sizeof_prng(void) { return sizeof(prng); }
size_t hx_off_prng_ptr(void) { return offsetof(prng, ptr); }
size_t hx_off_prng_buf(void) { return offsetof(prng, buf); }
/* the context-taking entry points are macros for the prefixed functions */
void hx_shake_init(void *c) { inner_shake256_init((inner_shake256_context *)c); }
void hx_shake_inject(void *c, const uint8_t *p, size_t n) { inner_shake256_inject((inner_shake256_context *)c, p, n); }
void hx_shake_flip(void *c) { inner_shake256_flip((inner_shake256_context *)c); }
void hx_shake_extract(void *c, uint8_t *p, size_t n) { inner_shake256_extract((inner_shake256_context *)c, p, n); }
int hx_kp_init(void *c) { return inner_keccak256_init((inner_keccak256_prng_ctx *)c); }
int hx_kp_inject(void *c, const uint8_t *p, size_t n) { return inner_keccak256_inject((inner_keccak256_prng_ctx *)c, p, n); }
int hx_kp_flip(void *c) { return inner_keccak256_flip((inner_keccak256_prng_ctx *)c); }
int hx_kp_extract(void *c, uint8_t *p, size_t n) { return inner_keccak256_extract((inner_keccak256_prng_ctx *)c, p, n); }
int hx_prng_get_u8(void *p) { return prng_get_u8((prng *)p); }
uint64_t hx_prng_get_u64(void *p) { return prng_get_u64((prng *)p); }
/* draws from SHAKE256 can be answered from a forced tape: seeds of the
 * generators built on it are then chosen instead of drawn */
static uint8_t forced[1 << 17];
static size_t forced_pos, forced_len;
void __real_falcon_inner_i_shake256_extract(inner_shake256_context *sc, uint8_t *out, size_t len);
void __wrap_falcon_inner_i_shake256_extract(inner_shake256_context *sc, uint8_t *out, size_t len)
{
	if (forced_pos < forced_len) {
		while (len > 0 && forced_pos < forced_len) { *out++ = forced[forced_pos++]; len--; }
	}
	if (len > 0) __real_falcon_inner_i_shake256_extract(sc, out, len);
}
void hx_force(const uint8_t *p, size_t n)
{
	for (size_t i = 0; i < n && i < sizeof forced; i++) forced[i] = p[i];
	forced_pos = 0; forced_len = n;
}
size_t hx_forced_left(void) { return forced_len - forced_pos; }
size_t hx_sizeof_sampler(void) { return sizeof(sampler_context); }
size_t hx_off_sampler_prng(void) { return offsetof(sampler_context, p); }
size_t hx_off_sampler_min(void) { return offsetof(sampler_context, sigma_min); }

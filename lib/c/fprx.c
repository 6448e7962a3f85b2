/* The emulated floating point, one entry point for the harness. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include "inner.h"
uint64_t hx_fp(int op, uint64_t x, uint64_t y, int k)
{
	switch (op) {
	case 0: return fpr_add(x, y);
	case 1: return fpr_sub(x, y);
	case 2: return fpr_mul(x, y);
	case 3: return fpr_sqr(x);
	case 4: return fpr_div(x, y);
	case 5: return fpr_inv(x);
	case 6: return fpr_sqrt(x);
	case 7: return fpr_half(x);
	case 8: return fpr_double(x);
	case 9: return fpr_neg(x);
	case 10: return (uint64_t)fpr_lt(x, y);
	case 11: return (uint64_t)fpr_rint(x);
	case 12: return (uint64_t)fpr_trunc(x);
	case 13: return (uint64_t)fpr_floor(x);
	case 14: return fpr_of((int64_t)x);
	case 15: return fpr_scaled((int64_t)x, k);
	case 16: return fpr_expm_p63(x, y);
	}
	abort();
}
uint64_t hx_const(int w, int i)
{
	switch (w) {
	case 0: return fpr_q;
	case 1: return fpr_inverse_of_q;
	case 2: return fpr_inv_2sqrsigma0;
	case 3: return fpr_inv_sigma[i];
	case 4: return fpr_sigma_min[i];
	case 5: return fpr_log2;
	case 6: return fpr_inv_log2;
	case 7: return fpr_bnorm_max;
	case 8: return fpr_zero;
	case 9: return fpr_one;
	case 10: return fpr_two;
	case 11: return fpr_onehalf;
	case 12: return fpr_invsqrt2;
	case 13: return fpr_invsqrt8;
	case 14: return fpr_ptwo31;
	case 15: return fpr_ptwo31m1;
	case 16: return fpr_mtwo31m1;
	case 17: return fpr_ptwo63m1;
	case 18: return fpr_mtwo63m1;
	case 19: return fpr_p2_tab[i];
	case 20: return fpr_gm_tab[i];
	}
	abort();
}

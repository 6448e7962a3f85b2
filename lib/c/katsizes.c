#include <stddef.h>
#include "katrng.h"
size_t hx_sizeof_xof(void) { return sizeof(AES_XOF_struct); }

/* Compiles a library source with its 32-bit x86 code path selected, on a 64-bit
   host: every header is included before the macro is defined. */
#include <stdint.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include <inttypes.h>
#include "dvbcsa/dvbcsa.h"
#include "dvbcsa_bs.h"
#include "dvbcsa_bs_transpose.h"
#define __i386__ 1
#include SOURCE_FILE

/* the board header, with the generator's data register replaced by a source of unknown 16-bit words */
#include_next "xmc1100.h"
#undef PRNG_WORD
volatile unsigned int *h_prng_word(void);
#define PRNG_WORD (*h_prng_word())

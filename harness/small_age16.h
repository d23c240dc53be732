/* makes the age counter wrap around within the reach of a test run */
#include <stdint.h>
#define uint_fast32_t uint16_t

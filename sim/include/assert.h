// <cassert>/<assert.h> of the code under test: assertions are always on and end the simulated run with a violation.
#include_next <assert.h>
#undef assert
#ifdef __cplusplus
#include "sim_api.h"
#define SIM_ASTR2(x) #x
#define SIM_ASTR(x) SIM_ASTR2(x)
#define assert(...) ((__VA_ARGS__) ? void() : sim_violation("assert", "assert(" #__VA_ARGS__ ") " __FILE__ ":" SIM_ASTR(__LINE__)))
#else
#define assert(x) ((void)0)
#endif

/* Included in front of the generator over RDRAND: the instruction becomes a scripted stand-in. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <immintrin.h>
#ifdef __cplusplus
extern "C"
#endif
int vp_step(unsigned long long *);
#define _rdrand64_step vp_step

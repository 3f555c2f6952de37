/* Included in front of the reader of system entropy: read() becomes a scripted stand-in. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C"
#endif
long vp_read(int, void *, unsigned long);
#define read vp_read

/* The stand-in: the k-th read gives what the plan says, byte by byte of a fixed sequence, and all that
   is asked for after the plan. */
#include <errno.h>
#include <fcntl.h>
#define MAX 100000
static long plan[MAX], length, at, given;

long vp_plan(const long *p, long n) {
  length = n < MAX ? n : MAX;
  for (long i = 0; i < length; i++) plan[i] = p[i];
  at = given = 0;
  return length;
}

long vp_reads(void) { return at; }
long vp_given(void) { return given; }

static unsigned char byte(long j) {
  unsigned long long z = (unsigned long long)(j + 1) * 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  return (unsigned char)(z >> 40);
}

void vp_bytes(unsigned char *p, long n) {
  for (long j = 0; j < n; j++) p[j] = byte(j);
}

long vp_read(int fd, void *buf, unsigned long size) {
  long n = at < length ? plan[at] : (long)size;
  at++;
  if (fcntl(fd, F_GETFD) < 0) {
    errno = EBADF;
    return -1;
  }
  if (n < 0) {
    errno = (int)-n;
    return -1;
  }
  if (n > (long)size) n = (long)size;
  for (long i = 0; i < n; i++) ((unsigned char *)buf)[i] = byte(given++);
  return n;
}

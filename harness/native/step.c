/* The stand-in: attempt k fails where the script says so; the j-th success gives word(j). */
#define MAX (1 << 20)
static unsigned char script[MAX];
static long length, at, given;

void vp_script(const unsigned char *s, long n) {
  length = n < MAX ? n : MAX;
  for (long i = 0; i < length; i++) script[i] = s[i];
  at = given = 0;
}

long vp_attempts(void) { return at; }

int vp_step(unsigned long long *p) {
  int ok = at < length ? script[at] : 1;
  at++;
  if (!ok) {
    *p = 0;
    return 0;
  }
  unsigned long long z = (unsigned long long)++given * 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  *p = z ^ (z >> 31);
  return 1;
}

// Native implementation of vrt_*: replays one recorded input vector. Uses raw
// system calls only, because the harnesses may define open/read/write themselves.
typedef unsigned long u64;
typedef unsigned int u32;
typedef unsigned char u8;
static long sc3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static u64 vals[65536];
static u64 nvals, pos;
static u8 buf[2 << 20];
static void out(const char *s, u64 n) {
  while (n) {
    long r = sc3(1, 1, (long)s, (long)n);
    if (r <= 0) return;
    s += r;
    n -= (u64)r;
  }
}
static u64 len(const char *s) {
  u64 n = 0;
  while (s[n]) n++;
  return n;
}
static void outs(const char *s) { out(s, len(s)); }
static void die(int c) {
  for (;;) sc3(231, c, 0, 0);
}
int vrt_load(const char *path, u64 plen) {
  char p[4096];
  if (plen > 4000) return 0;
  for (u64 i = 0; i < plen; i++) p[i] = path[i];
  p[plen] = 0;
  long fd = sc3(2, (long)p, 0, 0);
  if (fd < 0) return 0;
  u64 n = 0;
  for (;;) {
    long r = sc3(0, fd, (long)(buf + n), (long)(sizeof(buf) - n));
    if (r <= 0) break;
    n += (u64)r;
  }
  sc3(3, fd, 0, 0);
  u64 v = 0;
  int in = 0;
  for (u64 i = 0; i < n; i++) {
    if (buf[i] >= '0' && buf[i] <= '9') {
      v = v * 10 + (buf[i] - '0');
      in = 1;
    } else if (in) {
      vals[nvals++] = v;
      v = 0;
      in = 0;
    }
  }
  if (in) vals[nvals++] = v;
  return 1;
}
u64 vrt_sym(u32 w) {
  if (pos >= nvals) {
    outs("VRT exhausted\n");
    die(97);
  }
  u64 v = vals[pos++];
  if (w < 64) v &= (1ul << w) - 1;
  return v;
}
void vrt_assume(u8 c) {
  if (!(c & 1)) {
    outs("VRT assume-failed\n");
    die(96);
  }
}
static void hexline(const char *pre, const u8 *p, u64 n) {
  static const char d[] = "0123456789abcdef";
  outs(pre);
  for (u64 i = 0; i < n; i++) {
    char c[2] = {d[p[i] >> 4], d[p[i] & 15]};
    out(c, 2);
  }
  out("\n", 1);
}
static void line(const char *pre, const u8 *p, u64 n) {
  outs(pre);
  out((const char *)p, n);
  out("\n", 1);
}
void vrt_check(u8 c, const u8 *p, u64 n) {
  if (!(c & 1)) {
    line("VRT check-failed ", p, n);
    die(95);
  }
}
void vrt_fail(const u8 *p, u64 n) {
  line("VRT check-failed ", p, n);
  die(95);
}
void vrt_cover(const u8 *p, u64 n) { line("VRT cover ", p, n); }
void vrt_note(const u8 *p, u64 n) { line("VRT note ", p, n); }
void vrt_observe(const u8 *p, u64 n) { hexline("VRT obs ", p, n); }
u64 vrt_concretize(u64 v) { return v; }
u8 vrt_is_sym(void) { return 0; }
long vrt_rawwrite(int fd, const u8 *p, u64 n) { return sc3(1, fd, (long)p, (long)n); }
void vrt_done(void) {
  outs("VRT done\n");
  die(0);
}

void vrt_thread(u32 t) { (void)t; }
// Hands the arguments to the functions which get them at the start of a program.
typedef void (*init_fn)(int, char **, char **);
extern init_fn __init_array_start[] __attribute__((visibility("hidden")));
extern init_fn __init_array_end[] __attribute__((visibility("hidden")));
void vrt_args(long argc, char **argv) {
  static char *none[1];
  for (init_fn *f = __init_array_start; f < __init_array_end; f++) (*f)((int)argc, argv, none);
}

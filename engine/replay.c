/* Native replay of harness runs against the compiled code.
 * usage: replay LIB < lines, each "harness v0 v1 v2 ..."
 * Per line it forks a child that calls the harness with sym_* returning the values in call
 * order, and prints one line: "<status> <detail> | outs..."
 *   ok | assume | check <id> | panic(abort) | signal <n> | exhausted | missing */
#define _GNU_SOURCE
#include <signal.h>
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
static uint64_t *vals; static size_t nvals, pos; static int outfd; static int panic_ok;
static char obuf[1 << 20]; static size_t on;
static void done(const char *s, long d) { char b[64]; int n = snprintf(b, 64, "%s %ld |", s, d);
  if (write(outfd, b, n) < 0) {} if (write(outfd, obuf, on) < 0) {} _exit(0); }
static uint64_t next(void) { if (pos >= nvals) done("exhausted", 0); return vals[pos++]; }
uint8_t sym_u8(void) { return next(); } uint16_t sym_u16(void) { return next(); }
uint32_t sym_u32(void) { return next(); } uint64_t sym_u64(void) { return next(); }
size_t sym_usize(void) { return next(); }
void sym_assume(_Bool c) { if (!c) done("assume", 0); }
size_t sym_fork(size_t x) { return x; }
void sym_check(_Bool c, uint32_t id) { if (!c) done("check", id); }
void sym_out(uint64_t v) { if (on < sizeof obuf - 32) on += sprintf(obuf + on, " %llu", (unsigned long long)v); }
void sym_panic_ok(_Bool c) { panic_ok = c; if (write(outfd, c ? "P" : "p", 1) < 0) {} }
void sym_cut(uint64_t v) { (void)v; }
_Bool sym_native(void) { return 1; }
/* AES rounds by FIPS-197 */
static uint8_t sub(uint8_t x) { static uint8_t box[256]; static int ready;
  if (!ready) { uint8_t p = 1, q = 1; do { p = p ^ (p << 1) ^ (p & 0x80 ? 0x1b : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 9;
      uint8_t r = q; for (int k = 1; k < 5; k++) r ^= (q << k) | (q >> (8 - k)); box[p] = r ^ 0x63; } while (p != 1);
    box[0] = 0x63; ready = 1; }
  return box[x]; }
uint8_t sym_aes_sub(uint8_t x) { return sub(x); }
uint64_t sym_aes_round(uint64_t lo, uint64_t hi, _Bool last, uint32_t half) { uint8_t b[16], c[16], o[16]; memcpy(b, &lo, 8); memcpy(b + 8, &hi, 8);
  for (int i = 0; i < 16; i++) c[i] = sub(b[(i + 4 * (i % 4)) % 16]);
  for (int i = 0; i < 16; i++) { uint8_t *v = c + (i & ~3); int k = i & 3;
#define X2(a) ((uint8_t)(((a) << 1) ^ ((a) & 0x80 ? 0x1b : 0)))
    o[i] = last ? c[i] : X2(v[k]) ^ X2(v[(k + 1) & 3]) ^ v[(k + 1) & 3] ^ v[(k + 2) & 3] ^ v[(k + 3) & 3]; }
  uint64_t r; memcpy(&r, o + 8 * half, 8); return r; }
#include "replay_ff.h"
int main(int argc, char **argv) {
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  char *line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    char *name = strtok(line, " \n"); if (!name) continue;
    void (*f)(void) = (void (*)(void))dlsym(h, name);
    if (!f) { printf("missing 0 |\n"); continue; }
    nvals = 0; pos = 0; vals = realloc(vals, sizeof(uint64_t) * (n + 1));
    for (char *t; (t = strtok(NULL, " \n"));) vals[nvals++] = strtoull(t, 0, 10);
    int p[2]; if (pipe(p)) return 3;
    fflush(stdout);
    pid_t c = fork();
    if (!c) { close(p[0]); outfd = p[1]; int nul = open("/dev/null", O_WRONLY);
      if (!getenv("REPLAY_STDERR")) dup2(nul, 2);
      alarm(60); f(); done("ok", 0); }
    close(p[1]); static char buf[1 << 21]; size_t m = 0; ssize_t k;
    while ((k = read(p[0], buf + m, sizeof buf - 1 - m)) > 0) m += k;
    close(p[0]); buf[m] = 0; int st; waitpid(c, &st, 0);
    char *b = buf; int pok = 0; while (*b == 'P' || *b == 'p') { pok = *b == 'P'; b++; }
    if (WIFSIGNALED(st)) printf("%s %d |\n", WTERMSIG(st) == SIGABRT ? (pok ? "okpanic" : "panic") : "signal", WTERMSIG(st));
    else if (*b) printf("%s\n", b); else printf("exit %d |\n", WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}

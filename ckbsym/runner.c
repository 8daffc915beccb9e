/* Native replay: runs harness entries of the very artifact that is encoded symbolically, on concrete inputs.
   stdin:  H <entry> / v <u64> / a <gran> <len> <n> k v ... / G
   stdout: per vector a line "# <i>" followed by  O hex | R id | F id | A | X why | END */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static char obuf[1 << 20];
static size_t on;
static void flush_(void) { size_t i = 0; while (i < on) { ssize_t r = write(1, obuf + i, on - i); if (r <= 0) break; i += r; } on = 0; }
static void out(const char *s) { size_t l = strlen(s); if (on + l > sizeof obuf) flush_(); memcpy(obuf + on, s, l); on += l; }
static void outf(const char *f, uint64_t v) { char b[64]; snprintf(b, sizeof b, f, (unsigned long long)v); out(b); }

struct in { char k; uint64_t v; uint64_t gran, len, n; uint64_t *kv; };
static struct in *ins; static size_t nin, cin, pos;
static int tier;

/* ---- fenced allocator used while a vector runs: each block ends at a guard page, is filled with junk */
static int fence;
static char pool[1 << 26] __attribute__((aligned(64))); static size_t pooln;
struct hdr { size_t size; size_t map; char *base; uint64_t magic; };
#define MAGIC 0x5ab1e5ab1e5ab1eULL
static void *falloc(size_t al, size_t n, int zero) {
  if (al < 16) al = 16;
  if (!fence) {
    size_t p = (pooln + sizeof(struct hdr) + al - 1) & ~(al - 1);
    if (p + n > sizeof pool) { errno = ENOMEM; return 0; }
    pooln = p + n;
    struct hdr *h = (struct hdr *)(pool + p) - 1;
    h->size = n; h->map = 0; h->base = 0; h->magic = MAGIC;
    if (zero) memset(pool + p, 0, n);
    return pool + p;
  }
  size_t body = (n + al - 1) & ~(al - 1);
  size_t need = body + sizeof(struct hdr) + al;
  size_t pg = (need + 4095) & ~(size_t)4095;
  char *m = mmap(0, pg + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return 0;
  mprotect(m + pg, 4096, PROT_NONE);
  char *p = m + pg - body;
  p = (char *)((uintptr_t)p & ~(uintptr_t)(al - 1));
  struct hdr *h = (struct hdr *)p - 1;
  h->size = n; h->map = pg + 4096; h->base = m; h->magic = MAGIC;
  if (!zero && n < (1 << 20)) memset(p, 0xa7, n);
  return p;
}
void *malloc(size_t n) { return falloc(16, n, 0); }
void *calloc(size_t a, size_t b) { return falloc(16, a * b, 1); }
void free(void *p) {
  if (!p) return;
  struct hdr *h = (struct hdr *)p - 1;
  if (h->magic != MAGIC) { if (fence) { out("X badfree\n"); flush_(); _exit(9); } return; }
  if (h->map) munmap(h->base, h->map);
}
void *realloc(void *p, size_t n) {
  void *q = falloc(16, n, 0);
  if (p && q) { struct hdr *h = (struct hdr *)p - 1; memcpy(q, p, h->size < n ? h->size : n); free(p); }
  return q;
}
int posix_memalign(void **r, size_t al, size_t n) { *r = falloc(al, n, 0); return *r ? 0 : ENOMEM; }
void *aligned_alloc(size_t al, size_t n) { return falloc(al, n, 0); }
void *memalign(size_t al, size_t n) { return falloc(al, n, 0); }

/* ---- intrinsics */
static struct in *next_(char k) {
  if (pos >= nin || ins[pos].k != k) { out("X input\n"); flush_(); _exit(8); }
  return &ins[pos++];
}
uint64_t sym_u64(void) { return next_('v')->v; }
uint64_t sym_choice(uint32_t n) { (void)n; return next_('v')->v; }
void sym_bytes(uint8_t *p, uint64_t len, uint64_t tag, uint64_t gran) {
  (void)tag;
  struct in *i = next_('a');
  memset(p, 0, len);
  for (uint64_t j = 0; j < i->n; j++) {
    uint64_t k = i->kv[2 * j] * gran, v = i->kv[2 * j + 1];
    if (k + gran <= len) memcpy(p + k, &v, gran);
  }
}
void sym_assume(uint32_t c) { if (!c) { out("A\nEND\n"); flush_(); _exit(0); } }
void sym_assert(uint32_t c, uint32_t id) { if (!c) outf("F %llu\n", id); }
void sym_reach(uint32_t id) { outf("R %llu\n", id); }
void sym_observe(uint64_t v) { outf("O %llx\n", v); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_print(uint64_t v) { (void)v; }
uint64_t sym_tier(void) { return tier; }

static void onsig(int s) { outf("X signal %llu\n", s); flush_(); _exit(7); }

int main(int c, char **v) {
  if (c < 2) return 2;
  if (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough")) tier = 1;
  if (c > 2) tier = atoi(v[2]);
  void *h = dlopen(v[1], RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  char *line = 0; size_t cap = 0; ssize_t l; char name[128] = ""; size_t idx = 0;
  while ((l = getline(&line, &cap, stdin)) > 0) {
    if (line[0] == 'H') { sscanf(line + 2, "%127s", name); nin = 0; }
    else if (line[0] == 'v' || line[0] == 'a') {
      if (nin == cin) { cin = cin ? cin * 2 : 256; ins = realloc(ins, cin * sizeof *ins); }
      struct in *i = &ins[nin++]; i->k = line[0]; i->kv = 0;
      char *q = line + 2;
      if (line[0] == 'v') i->v = strtoull(q, 0, 10);
      else {
        i->gran = strtoull(q, &q, 10); i->len = strtoull(q, &q, 10); i->n = strtoull(q, &q, 10);
        i->kv = malloc(16 * i->n + 16);
        for (uint64_t j = 0; j < 2 * i->n; j++) i->kv[j] = strtoull(q, &q, 10);
      }
    } else if (line[0] == 'G') {
      void (*f)(void) = (void (*)(void))dlsym(h, name);
      outf("# %llu\n", idx++);
      if (!f) { out("X noentry\nEND\n"); flush_(); continue; }
      flush_();
      pid_t p = fork();
      if (p == 0) {
        if (!getenv("RUNNER_STDERR")) { int fd = open("/dev/null", 1); if (fd >= 0) dup2(fd, 2); }
        static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
        int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP};
        for (unsigned j = 0; j < sizeof sg / sizeof *sg; j++) { struct sigaction sa = {.sa_handler = onsig, .sa_flags = SA_ONSTACK}; sigaction(sg[j], &sa, 0); }
        alarm(20);
        fence = 1; pos = 0;
        f();
        fence = 0;
        out("END\n"); flush_(); _exit(0);
      }
      int stt; waitpid(p, &stt, 0);
      if (WIFSIGNALED(stt)) { outf("X killed %llu\n", WTERMSIG(stt)); flush_(); }
      if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { out("END\n"); flush_(); }
      if (pooln > sizeof pool - (1 << 24)) { fprintf(stderr, "runner pool full\n"); return 2; }
    }
  }
  return 0;
}

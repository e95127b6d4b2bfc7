// vh MODE --seed S --from A --to B --log FILE --scratch DIR [--thorough] [--cpu SECONDS] [--arg X] [-v]
// Runs cases A..B-1 of a mode. Everything observed goes to the log file, one line per event:
//   B case            a case begins
//   E case hash 0|1   it ended; content hash; whether it was non-trivial
//   V case key text   a violation
//   S text            a sample
//   N name value      a counter increment
//   T case            the case exceeded its CPU time
//   X text            error of the harness
//   D                 all cases done
#include "vh.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <locale.h>
#include <malloc.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#if VARIANT_asan
#include <sanitizer/asan_interface.h>
#endif
#if VARIANT_msan
#include <sanitizer/msan_interface.h>
#endif

static int g_log = 2;
Ctx *g_ctx = nullptr;
static volatile bool g_in_case = false;
static int g_reports = 0;
static int g_samples = 0;

static void emit(const char *s, size_t n) {
  while (n) {
    ssize_t k = write(g_log, s, n);
    if (k < 0) { if (errno == EINTR) continue; _exit(99); }
    s += k; n -= (size_t)k;
  }
}
static void emitf(const char *fmt, ...) {
  static char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 2, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof buf - 2) n = (int)sizeof buf - 2;
  for (int i = 0; i < n; i++) if (buf[i] == '\n' || buf[i] == '\r') buf[i] = ' ';
  buf[n++] = '\n';
  emit(buf, (size_t)n);
}
void report(const char *key, const char *fmt, ...) {
  char m[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  if (g_reports++ < 8) emitf("V %ld %s %s", g_ctx ? g_ctx->idx : -1, key, m);
}
bool reported_any() { return g_reports > 0; }
void sample(const char *fmt, ...) {
  if (g_samples >= 6) return;
  g_samples++;
  char m[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  emitf("S %s", m);
}
void say(const char *fmt, ...) {
  if (!g_ctx || !g_ctx->verbose) return;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);
}
void harness_error(const char *fmt, ...) {
  char m[1000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(m, sizeof m, fmt, ap);
  va_end(ap);
  emitf("X %s", m);
  _exit(98);
}
struct Counter { const char *name; double v; };
static Counter g_counters[128];
static int g_ncounters = 0;
void count(const char *name, double v) {
  for (int i = 0; i < g_ncounters; i++)
    if (g_counters[i].name == name || !strcmp(g_counters[i].name, name)) { g_counters[i].v += v; return; }
  if (g_ncounters < 128) g_counters[g_ncounters++] = Counter{strdup(name), v};
}
static void flush_counters() {
  for (int i = 0; i < g_ncounters; i++)
    if (g_counters[i].v != 0) { emitf("N %s %.17g", g_counters[i].name, g_counters[i].v); g_counters[i].v = 0; }
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
void use_hash(uint64_t h) { g_ctx->hash = hash_bytes(&h, sizeof h, g_ctx->hash); }

const char *scratch_path(const char *name) {
  static char bufs[8][700];
  static int k = 0;
  char *b = bufs[k++ & 7];
  snprintf(b, 700, "%s/%s", g_ctx->scratch, name);
  return b;
}
void write_file(const char *path, const void *p, size_t n) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) harness_error("cannot create %s: %s", path, strerror(errno));
  const char *s = (const char *)p;
  while (n) {
    ssize_t k = write(fd, s, n);
    if (k <= 0) harness_error("cannot write %s: %s", path, strerror(errno));
    s += k; n -= (size_t)k;
  }
  close(fd);
}
bool read_file(const char *path, Bytes &out) {
  int fd = open(path, O_RDONLY);
  if (fd < 0) return false;
  out.clear();
  unsigned char buf[65536];
  for (;;) {
    ssize_t k = read(fd, buf, sizeof buf);
    if (k <= 0) break;
    out.insert(out.end(), buf, buf + k);
  }
  close(fd);
  return true;
}

// ---- memory monitor: an address table filled by the sanitizer's allocation hooks ----
static const size_t TAB = 1u << 20;
static const void *g_tab[TAB];
static uint32_t g_sz[TAB];
static size_t g_live = 0, g_bytes = 0;
static volatile bool g_track = false;
static const void *const TOMB = (const void *)1;
static size_t slot(const void *p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (TAB - 1); }
__attribute__((no_sanitize("memory", "thread", "address")))
static void on_malloc(const volatile void *p, size_t n) {
  if (!g_track || !p) return;
  size_t i = slot((const void *)p);
  for (size_t k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1))
    if (!g_tab[i] || g_tab[i] == TOMB) {
      g_tab[i] = (const void *)p; g_sz[i] = (uint32_t)n; g_live++; g_bytes += (uint32_t)n;
      return;
    }
}
__attribute__((no_sanitize("memory", "thread", "address")))
static void on_free(const volatile void *p) {
  if (!p || !g_live) return;
  size_t i = slot((const void *)p);
  for (size_t k = 0; k < TAB; k++, i = (i + 1) & (TAB - 1)) {
    if (!g_tab[i]) return;
    if (g_tab[i] == (const void *)p) { g_tab[i] = TOMB; g_live--; g_bytes -= g_sz[i]; return; }
  }
}
void mem_install() {
#if !VARIANT_tsan
  if (!__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) harness_error("cannot install allocation hooks");
#endif
}
void mem_track(bool on) { g_track = on; }
size_t mem_live() { return g_live; }
size_t mem_live_bytes() { return g_bytes; }
void mem_forget() { memset(g_tab, 0, sizeof g_tab); g_live = g_bytes = 0; }
void mem_describe(char *buf, size_t n) {
  snprintf(buf, n, "?");
#if VARIANT_asan
  for (size_t i = 0; i < TAB; i++) {
    if (!g_tab[i] || g_tab[i] == TOMB) continue;
    void *pcs[16];
    int tid;
    size_t k = __asan_get_alloc_stack((void *)g_tab[i], pcs, 16, &tid);
    size_t o = 0;
    o += (size_t)snprintf(buf, n, "%u bytes from", g_sz[i]);
    int shown = 0;
    for (size_t j = 0; j < k && shown < 4 && o + 80 < n; j++) {
      char f[200];
      __sanitizer_symbolize_pc(pcs[j], "%f", f, sizeof f);
      if (strstr(f, "__interceptor") || !strcmp(f, "malloc") || !strcmp(f, "calloc") || !strcmp(f, "realloc") || strstr(f, "operator new") || !strcmp(f, "fopen") || !strcmp(f, "strdup")) continue;
      o += (size_t)snprintf(buf + o, n - o, "%c%s", shown ? '<' : ' ', f);
      shown++;
    }
    return;
  }
#endif
}
int open_fds() {
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  int n = 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
void unpoison(const void *p, size_t n) {
#if VARIANT_msan
  if (p && n) __msan_unpoison(p, n);
#else
  (void)p; (void)n;
#endif
}
bool all_addressable(const void *p, size_t n) {
#if VARIANT_asan
  return n == 0 || (p && !__asan_region_is_poisoned((void *)p, n));
#else
  return n == 0 || p;
#endif
}
bool all_initialised(const void *p, size_t n) {
#if VARIANT_msan
  return n == 0 || __msan_test_shadow(p, n) < 0;
#else
  (void)p; (void)n;
  return true;
#endif
}

void msg_cb(const char *msg, at_msg_type t, void *data) {
  Msgs *m = (Msgs *)data;
  if (t == AT_MSG_FATAL) m->fatal++;
  else if (t == AT_MSG_WARNING) m->warning++;
  else m->other++;
  if (!m->first[0] && msg) snprintf(m->first, sizeof m->first, "%s", msg);
}
const char *const READERS[] = {"png", "tga", "pbm", "pnm", "pgm", "ppm", "bmp", "gf"};
const int NREADERS = 8;
const char *const WRITERS[] = {"eps", "ai", "p2e", "sk", "svg", "ugs", "fig", "emf", "mif", "er", "dxf", "epd", "pdf", "cgm", "dr2d", "pov", "plt", "ild"};
const int NWRITERS = 18;
at_bitmap_reader *reader(const char *suffix) {
  char b[16];
  snprintf(b, sizeof b, "%s", suffix);
  at_bitmap_reader *r = at_input_get_handler_by_suffix(b);
  if (!r) { report("no-reader", "no reader for %s", suffix); return nullptr; }
  unpoison(r, 64);   // it was filled in by code that is not instrumented
  return r;
}
at_spline_writer *writer(const char *suffix) {
  char b[16];
  snprintf(b, sizeof b, "%s", suffix);
  at_spline_writer *r = at_output_get_handler_by_suffix(b);
  if (!r) { report("no-writer", "no writer for %s", suffix); return nullptr; }
  unpoison(r, 64);   // it was filled in by code that is not instrumented
  return r;
}

static Mode g_modes[64];
static int g_nmodes = 0;
void register_mode(const char *name, ModeFn fn) { g_modes[g_nmodes++] = Mode{name, fn}; }

static void on_exit_called() {
  if (g_in_case) emitf("V %ld exit-called the library ended the process through exit()", g_ctx->idx);
}
int g_cpu = 40;
static void on_cpu(int) {
  char b[64];
  int n = snprintf(b, sizeof b, "T %ld\n", g_ctx->idx);
  emit(b, (size_t)n);
  _exit(77);
}
static uint64_t mode_hash(const char *s) { return hash_bytes(s, strlen(s)); }

int main(int argc, char **argv) {
  static Ctx c;
  g_ctx = &c;
  long from = 0, to = 1;
  const char *mode = argc > 1 ? argv[1] : "", *log = nullptr;
  for (int i = 2; i < argc; i++) {
    const char *a = argv[i];
    const char *v = i + 1 < argc ? argv[i + 1] : "";
    if (!strcmp(a, "--seed")) c.seed = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--from")) from = atol(v), i++;
    else if (!strcmp(a, "--to")) to = atol(v), i++;
    else if (!strcmp(a, "--log")) log = v, i++;
    else if (!strcmp(a, "--scratch")) snprintf(c.scratch, sizeof c.scratch, "%s", v), i++;
    else if (!strcmp(a, "--cpu")) g_cpu = atoi(v), i++;
    else if (!strcmp(a, "--arg")) c.arg = v, i++;
    else if (!strcmp(a, "--thorough")) c.thorough = true;
    else if (!strcmp(a, "-v")) c.verbose = true;
  }
  if (log) {
    g_log = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (g_log < 0) { perror(log); return 98; }
  }
  setenv("AT_DATE_ZERO", "yes", 1);
  static char outbuf[8192];
  setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
  ModeFn fn = nullptr;
  for (int i = 0; i < g_nmodes; i++) if (!strcmp(g_modes[i].name, mode)) fn = g_modes[i].fn;
  if (!fn) harness_error("unknown mode %s", mode);
  atexit(on_exit_called);
  mem_install();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_cpu;
  sigaction(SIGPROF, &sa, 0);
  autotrace_init();
  for (long i = from; i < to; i++) {
    c.idx = i;
    c.rng = Rng(c.seed * 0x9E3779B97F4A7C15ull ^ mode_hash(mode) ^ ((uint64_t)i * 0xD1B54A32D192ED03ull));
    c.rng.next();
    c.hash = 1469598103934665603ull;
    c.nontrivial = false;
    g_reports = 0;
    struct itimerval tv = {{0, 0}, {g_cpu, 0}};
    setitimer(ITIMER_PROF, &tv, 0);
    emitf("B %ld", i);
    g_in_case = true;
    fn(c);
    g_in_case = false;
    emitf("E %ld %llx %d", i, (unsigned long long)c.hash, c.nontrivial ? 1 : 0);
    if ((i & 31) == 31) flush_counters();
  }
  struct itimerval off = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &off, 0);
  flush_counters();
  emitf("D");
  _exit(0);
}

// Common parts of the harness. The harness is itself instrumented (also by MSan), so it
// uses nothing of the C++ library that is not header only.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <utility>
#include <vector>
#include "autotrace.h"

typedef std::vector<unsigned char> Bytes;

// ---- random numbers: every choice derives from (seed, mode, case) ----
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t u(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }          // 0..n-1
  int range(int a, int b) { return a + (int)u((uint32_t)(b - a + 1)); }      // a..b
  double f() { return (double)(next() >> 11) / 9007199254740992.0; }
  double frange(double a, double b) { return a + (b - a) * f(); }
  bool p(double x) { return f() < x; }
  template <class T> T pick(const std::vector<T> &v) { return v[u((uint32_t)v.size())]; }
};

// ---- reporting ----
struct Ctx {
  uint64_t seed = 1;
  long idx = 0;           // case number
  bool thorough = false;
  char scratch[512] = "";
  Rng rng;
  uint64_t hash = 0;      // distinguishes the case's relevant content
  bool nontrivial = false;
  bool verbose = false;
  const char *arg = "";   // free argument of the mode
};
extern Ctx *g_ctx;
extern int g_cpu;     // seconds of CPU time a case may use
void report(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));   // a violation in the current case
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));                    // a sample of what was observed
void count(const char *name, double v = 1);                                                 // accumulates an observation counter
void say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));                       // verbose output only
bool reported_any();                                                                        // violation in the current case so far
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
void use_hash(uint64_t h);     // mixes into the case hash

// scratch files
const char *scratch_path(const char *name);
void write_file(const char *path, const void *p, size_t n);
bool read_file(const char *path, Bytes &out);

// ---- memory monitor ----
struct MemMark { size_t live_blocks, live_bytes; };
void mem_install();
void mem_track(bool on);                 // record blocks allocated while on
size_t mem_live();                       // tracked blocks still allocated
size_t mem_live_bytes();
void mem_forget();                       // forget the tracked blocks
void mem_describe(char *buf, size_t n);  // function names of the first live block's allocation stack
int open_fds();

void unpoison(const void *p, size_t n);                 // MSan only
bool all_addressable(const void *p, size_t n);          // ASan only, true elsewhere
bool all_initialised(const void *p, size_t n);          // MSan only, true elsewhere

// ---- API helpers ----
struct Msgs {
  int fatal = 0, warning = 0, other = 0;
  char first[200] = "";
  int total() const { return fatal + warning + other; }
};
void msg_cb(const char *msg, at_msg_type t, void *data);

at_bitmap_reader *reader(const char *suffix);
at_spline_writer *writer(const char *suffix);
extern const char *const WRITERS[];
extern const int NWRITERS;
extern const char *const READERS[];
extern const int NREADERS;

struct RGB {
  unsigned char r, g, b;
  bool operator==(const RGB &o) const { return r == o.r && g == o.g && b == o.b; }
  bool operator!=(const RGB &o) const { return !(*this == o); }
  bool operator<(const RGB &o) const { return code() < o.code(); }
  uint32_t code() const { return (r << 16) | (g << 8) | b; }
};

// An image: np planes (1 or 3), rows top first.
struct Img {
  int w = 0, h = 0, np = 1;
  Bytes px;
  Img() {}
  Img(int w_, int h_, int np_) : w(w_), h(h_), np(np_), px((size_t)w_ * h_ * np_) {}
  RGB at(int x, int y) const {
    const unsigned char *p = &px[((size_t)y * w + x) * np];
    return np < 3 ? RGB{p[0], p[0], p[0]} : RGB{p[0], p[1], p[2]};
  }
  void set(int x, int y, RGB c) {
    unsigned char *p = &px[((size_t)y * w + x) * np];
    p[0] = c.r;
    if (np >= 3) { p[1] = c.g; p[2] = c.b; }
  }
  std::vector<RGB> colors() const;
  uint64_t hash() const;
};
at_bitmap *to_bitmap(const Img &im);
Img from_bitmap(const at_bitmap *b);
void print_img(const Img &im, const std::vector<RGB> &pal);

// img.cpp: generators
struct GenOpt { int maxdim = 40; int maxcolors = 6; int np = 0; bool strokes = false; bool big = false; };
Img gen_image(Rng &r, const GenOpt &o);
Img gen_strokes(Rng &r, const GenOpt &o, bool have_bg, RGB bg);
std::vector<RGB> gen_palette(Rng &r, int n, int np);
void draw_line(Img &im, double x0, double y0, double x1, double y1, double width, RGB c);
void draw_disc(Img &im, double cx, double cy, double rx, double ry, RGB c);

// Connected components (4 or 8) of equal colour. Returns the number; lab is per pixel.
int label(const Img &im, int conn, std::vector<int> &lab);

at_fitting_opts_type *gen_opts(Rng &r, const Img &im);
void print_opts(const at_fitting_opts_type *o);
uint64_t hash_opts(const at_fitting_opts_type *o);
uint64_t hash_splines(const at_splines_type *s);
at_splines_type *splines_deep_copy(const at_splines_type *s);
void splines_deep_free(at_splines_type *s);
// m_write.cpp: spline sets that satisfy what tracing guarantees (closed lists, or centerline lists that may be open)
struct SplineGen { int maxdim = 300, maxcolors = 12, maxlists = 30, maxsplines = 30; int centerline = -1; };
at_splines_type *gen_splines(Rng &r, const SplineGen &g);     // free with splines_deep_free
at_splines_type *traced_splines(Rng &r, int maxdim);          // likewise; may return nullptr
std::vector<char> gen_name(Rng &r);
bool splines_same(const at_splines_type *a, const at_splines_type *b, bool colors, char *why, size_t n);

// enc.cpp: encoders of well-formed files; exp receives the pixels a reader must return
struct Glyph { int code = 0; long minc = 0, maxc = 0, minr = 0, maxr = 0, advance = 0; };   // maxc: right edge
struct Encoded { const char *suffix; char variant[96]; Bytes data; Img exp; size_t body; /* offset where pixel data starts */ size_t need; /* bytes needed for all pixels */ int charcode = 0; Glyph glyph{}; double design = 0; /* GF: pixels of the design size */ };
Encoded gen_encoded(Rng &r, int fmt, int maxdim);   // fmt: index in ENC_NAMES
extern const char *const ENC_NAMES[];
extern const int NENC;
// m_read.cpp: damage to encoded files
void mutate(Rng &r, Bytes &d, size_t body);
void fix_png_crcs(Bytes &b);

// modes
typedef void (*ModeFn)(Ctx &);
struct Mode { const char *name; ModeFn fn; };
void register_mode(const char *name, ModeFn fn);
struct ModeReg { ModeReg(const char *n, ModeFn f) { register_mode(n, f); } };
#define MODE(name) static void mode_##name(Ctx &c); static ModeReg reg_##name(#name, mode_##name); static void mode_##name(Ctx &c)

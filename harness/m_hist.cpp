// Sequences of calls: hist and digest (C13), args (C14), leak (C15).
// An operation is a function of its seed alone: it builds its arguments, makes the call and
// digests everything the caller can see.
#include "geom.hpp"
#include <errno.h>
#include <locale.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
enum Kind { READ, TRACE, WRITE, OBJECTS };
struct Op { uint64_t seed; Kind kind; int fmt; };    // fmt: index of encoder or writer
struct Done {
  uint64_t digest = 0;
  bool gf = false, ugs = false, solid = false;       // solid: pixels, splines or bytes came out
  char text[160] = "";
};
bool g_watch = false;                                // arguments are compared before and after (C14)
long g_poll_at = -1;                                 // overrides where a trace is cancelled (C15)
long g_polls = 0;

struct AllMsgs { uint64_t h = 5; int n = 0; bool fatal = false; char first[100] = ""; };
void all_msgs(const char *m, at_msg_type t, void *d) {
  AllMsgs *a = (AllMsgs *)d;
  a->h = hash_bytes(m, strlen(m), a->h + (uint64_t)t + 1);
  if (!a->n++) snprintf(a->first, sizeof a->first, "%s", m);
  if (t == AT_MSG_FATAL) a->fatal = true;
}
struct Poll { long at = -1, n = 0; bool sticky = true; };
bool poll_cb(void *d) {
  Poll *p = (Poll *)d;
  long k = p->n++;
  return p->at >= 0 && (p->sticky ? k >= p->at : k == p->at);
}
uint64_t mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }
uint64_t hash_bitmap(const at_bitmap *b) {
  if (!b) return 9;
  uint64_t h = mix(mix(mix(3, b->width), b->height), b->np);
  size_t n = (size_t)b->width * b->height * b->np;
  return n ? hash_bytes(b->bitmap, n, h) : h;
}
uint64_t hash_all(const at_splines_type *s) {       // also what linear splines and padding members hold
  uint64_t h = hash_splines(s);
  for (unsigned i = 0; i < s->length; i++) {
    h = mix(h, (uint64_t)(uintptr_t)s->data[i].data);
    for (unsigned j = 0; j < s->data[i].length; j++) { const at_spline_type &p = s->data[i].data[j]; h = hash_bytes(p.v, sizeof p.v, h); h = hash_bytes(&p.linearity, sizeof p.linearity, h); }
  }
  return mix(mix(h, (uint64_t)(uintptr_t)s->data), (uint64_t)(uintptr_t)s->background_color);
}

void do_read(Rng &r, int fmt, Done &d) {
  Encoded e = gen_encoded(r, fmt, r.p(0.1) ? 120 : 20);
  Bytes data = e.data;
  int how = (int)r.u(10);
  if (how < 4) mutate(r, data, e.body);
  if (fmt == 3 && r.p(0.7)) fix_png_crcs(data);
  const char *path = scratch_path("in.img");
  if (how == 9 && r.p(0.3)) path = r.p(0.5) ? scratch_path("missing.img") : scratch_path("");
  else write_file(path, data.data(), data.size());
  at_input_opts_type *o = at_input_opts_new();
  o->charcode = (unsigned)(r.p(0.8) ? e.charcode : (int)r.u(300));
  if (r.p(0.4)) o->background_color = new_color(RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)});
  char name[700];
  snprintf(name, sizeof name, "%s", path);
  at_input_opts_type before = *o;
  at_color bgb = {0, 0, 0};
  if (o->background_color) bgb = *o->background_color;
  at_bitmap_reader *rd = reader(e.suffix);
  if (!rd) harness_error("no reader %s", e.suffix);
  AllMsgs m;
  at_bitmap *b = at_bitmap_read(rd, name, o, all_msgs, &m);
  if (g_watch) {
    if (o->charcode != before.charcode || o->background_color != before.background_color || (o->background_color && !(rgb(*o->background_color) == rgb(bgb)))) report("input-options-changed", "reading %s (%s) changed the input options", e.suffix, e.variant);
    if (strcmp(name, path)) report("file-name-changed", "reading changed the file name to %s", name);
    count("reads");
  }
  d.digest = mix(hash_bitmap(b), m.h);
  d.gf = !strcmp(e.suffix, "gf");
  d.solid = b && b->width && b->height;
  snprintf(d.text, sizeof d.text, "read %s (%s%s) -> %dx%d%s%s", e.suffix, e.variant, how < 4 ? ", damaged" : "", b ? b->width : 0, b ? b->height : 0, m.n ? ", " : "", m.first);
  at_input_opts_free(o);
  if (b) at_bitmap_free(b);
}
void do_trace(Rng &r, Done &d) {
  Img im;
  if (r.p(0.4)) { GenOpt g; g.maxdim = 24; im = gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255}); }
  else { GenOpt g; g.maxdim = 20; im = gen_image(r, g); }
  at_fitting_opts_type *o = gen_opts(r, im);
  if (o->background_color && im.np == 1) o->background_color->g = o->background_color->b = o->background_color->r;
  if (r.p(0.4)) o->color_count = 0;
  at_bitmap *b = to_bitmap(im);
  bool cancel = r.p(0.25);
  Poll p;
  if (cancel) { p.at = r.range(0, r.p(0.5) ? im.h * 2 : im.h * im.w * 2); p.sticky = r.p(0.5); }
  if (g_poll_at >= 0) { cancel = true; p.at = g_poll_at; }
  if (g_poll_at == -2) { cancel = true; p.at = -1; }
  at_fitting_opts_type before = *o;
  uint64_t oh = hash_opts(o);
  unsigned short w = b->width, h = b->height;
  unsigned np = b->np;
  unsigned char *px = b->bitmap;
  bool early = r.p(0.5);
  AllMsgs m;
  at_splines_type *s = at_splines_new_full(b, o, all_msgs, &m, nullptr, nullptr, cancel ? poll_cb : nullptr, &p);
  g_polls = p.n;
  if (g_watch) {
    if (hash_opts(o) != oh || o->background_color != before.background_color) report("fitting-options-changed", "tracing %dx%d%s%s changed the fitting options", im.w, im.h, o->centerline ? " centerline" : "", s ? "" : " (no result)");
    if (b->width != w || b->height != h || b->np != np || b->bitmap != px) report("bitmap-header-changed", "tracing changed the bitmap from %dx%dx%u to %dx%dx%u", w, h, np, b->width, b->height, b->np);
    count(s ? "traces" : "traces_without_result");
  }
  uint64_t bh = hash_bitmap(b);
  // the result must not depend on the bitmap and the options living on
  if (early) { at_bitmap_free(b); at_fitting_opts_free(o); }
  d.digest = mix(mix(hash_splines(s), bh), m.h);
  d.solid = s && s->length;
  snprintf(d.text, sizeof d.text, "trace %dx%dx%d%s -> %d lists%s%s", im.w, im.h, im.np, before.centerline ? " centerline" : "", s ? (int)s->length : -1, m.n ? ", " : "", m.first);
  if (s) at_splines_free(s);
  if (!early) { at_bitmap_free(b); at_fitting_opts_free(o); }
}
ssize_t full_device(void *room, const char *, size_t n) {
  size_t *left = (size_t *)room;
  if (n > *left) { errno = ENOSPC; *left = 0; return 0; }
  *left -= n;
  return (ssize_t)n;
}
void do_write(Rng &r, int fmt, Done &d) {
  const char *suffix = WRITERS[fmt];
  SplineGen g;
  g.maxdim = 200; g.maxcolors = r.p(0.1) ? 600 : 12; g.maxlists = g.maxcolors > 12 ? 650 : 20; g.maxsplines = 12;
  at_splines_type *s = gen_splines(r, g);
  at_output_opts_type *o = at_output_opts_new();
  if (r.p(0.5)) o->dpi = r.range(1, 1200);
  std::vector<char> name = gen_name(r), name0 = name;
  at_spline_writer *w = writer(suffix);
  if (!w) harness_error("no writer %s", suffix);
  int target = r.p(0.06) ? 1 + (int)r.u(2) : 0;      // a full device, a stream that cannot be written
  const char *path = scratch_path("out");
  if (target == 2) write_file(path, "", 0);
  size_t room = target == 1 ? r.u(r.p(0.5) ? 40 : 3000) : 0;
  FILE *f = target == 1 ? fopencookie(&room, "wb", cookie_io_functions_t{nullptr, full_device, nullptr, nullptr}) : fopen(path, target == 2 ? "rb" : "wb");
  if (!f) harness_error("cannot open %s", path);
  if (target) setvbuf(f, nullptr, _IONBF, 0);
  int dpi = o->dpi;
  uint64_t sh = g_watch ? hash_all(s) : 0;
  AllMsgs m;
  at_splines_write(w, f, name.data(), o, s, all_msgs, &m);
  fclose(f);
  if (g_watch) {
    if (hash_all(s) != sh) report("splines-changed", "writing %s changed the splines", suffix);
    if (o->dpi != dpi) report("output-options-changed", "writing %s changed the output options", suffix);
    if (memcmp(name.data(), name0.data(), name.size())) report("name-changed", "writing %s changed the name", suffix);
    count("writes");
  }
  Bytes out;
  if (!target) read_file(path, out);
  d.digest = mix(hash_bytes(out.data(), out.size(), 77), m.h);
  d.ugs = !strcmp(suffix, "ugs");
  d.solid = out.size() > 0 && s->length;
  snprintf(d.text, sizeof d.text, "write %s %d lists%s -> %zu bytes%s%s", suffix, s->length, target ? ", failing stream" : "", out.size(), m.n ? ", " : "", m.first);
  at_output_opts_free(o);
  splines_deep_free(s);
}
void do_objects(Rng &r, Done &d) {
  uint64_t h = 1;
  for (int k = 0; k < 4; k++) switch (r.u(9)) {
    case 0: autotrace_init(); break;
    case 1: case 2: { char t[] = "drawing.Bmp", u[] = "drawing.bmq"; h = mix(h, (uint64_t)!!at_input_get_handler(t) * 2 + !!at_input_get_handler(u)); break; }
    case 3: case 4: { char t[] = "a.b.Svg", u[] = "a.b.svh"; h = mix(h, (uint64_t)!!at_output_get_handler(t) * 2 + !!at_output_get_handler(u)); break; }
    case 5: { at_fitting_opts_type *o = at_fitting_opts_new(); if (r.p(0.5)) o->background_color = at_color_new(1, 2, 3); at_fitting_opts_type *q = at_fitting_opts_copy(o); h = mix(h, hash_opts(q)); at_fitting_opts_free(o); at_fitting_opts_free(q); break; }
    case 6: { at_input_opts_type *o = at_input_opts_new(); if (r.p(0.5)) o->background_color = at_color_new(1, 2, 3); at_input_opts_type *q = at_input_opts_copy(o); h = mix(h, q->charcode); at_input_opts_free(o); at_input_opts_free(q); break; }
    case 7: { at_output_opts_type *o = at_output_opts_new(), *q = at_output_opts_copy(o); h = mix(h, (uint64_t)q->dpi); at_output_opts_free(o); at_output_opts_free(q); break; }
    default: { GenOpt g; g.maxdim = 12; Img im = gen_image(r, g); at_bitmap *b = to_bitmap(im), *q = at_bitmap_copy(b); h = mix(h, hash_bitmap(q)); at_bitmap_free(b); at_bitmap_free(q); }
  }
  d.digest = h;
  snprintf(d.text, sizeof d.text, "lists and options objects");
}
Done perform(const Op &op) {
  Done d;
  Rng r(op.seed);
  r.next();
  switch (op.kind) {
    case READ: do_read(r, op.fmt, d); break;
    case TRACE: do_trace(r, d); break;
    case WRITE: do_write(r, op.fmt, d); break;
    default: do_objects(r, d);
  }
  return d;
}
Op gen_op(Rng &r) {
  Op o;
  o.seed = r.next();
  int k = (int)r.u(20);
  o.kind = k < 6 ? READ : k < 12 ? TRACE : k < 19 ? WRITE : OBJECTS;
  o.fmt = o.kind == READ ? (int)r.u((uint32_t)NENC) : o.kind == WRITE ? (int)r.u((uint32_t)NWRITERS) : 0;
  return o;
}

struct Slot { uint64_t digest; int gf, ugs, solid; char text[160]; };
void in_child(const std::vector<Op> &ops, Slot *out, uint64_t mess) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) harness_error("fork: %s", strerror(errno));
  if (!pid) {
    struct itimerval tv = {{0, 0}, {g_cpu, 0}};
    setitimer(ITIMER_PROF, &tv, 0);
    Rng m(mess);
    for (size_t i = 0; i < ops.size(); i++) {
      if (mess) {           // leave traces of other work in the heap and in errno
        void *p[12];
        for (auto &q : p) { size_t n = 1 + m.u(m.p(0.8) ? 300 : 20000); q = malloc(n); if (q) memset(q, (int)m.u(256), n); }
        for (auto &q : p) free(q);
        static const int E[] = {0, EDOM, ERANGE, ENOMEM, EINTR, ENOENT, EINVAL};
        errno = E[m.u(7)];
      }
      Done d = perform(ops[i]);
      out[i].digest = d.digest; out[i].gf = d.gf; out[i].ugs = d.ugs; out[i].solid = d.solid;
      memcpy(out[i].text, d.text, sizeof d.text);
    }
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) harness_error("waitpid: %s", strerror(errno));
  if (WIFSIGNALED(st)) { fprintf(stderr, "child ended by signal %d\n", WTERMSIG(st)); _exit(86); }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));    // its report is on standard error
}
}

MODE(hist) {
  Rng &r = c.rng;
  static Slot *slots = nullptr;
  const int CAP = 64;
  if (!slots) {
    slots = (Slot *)mmap(nullptr, sizeof(Slot) * 2 * CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (slots == MAP_FAILED) harness_error("mmap");
  }
  // a few operations, repeated and interleaved
  std::vector<Op> pool;
  int n = r.range(2, 5), theme = (int)r.u(4), fmt = theme == 1 ? (int)(c.idx % NWRITERS) : (int)r.u((uint32_t)NENC);
  for (int i = 0; i < n; i++) {
    Op o = gen_op(r);
    if (theme == 1 && r.p(0.85)) { o.kind = WRITE; o.fmt = fmt; }
    else if (theme == 2 && r.p(0.85)) o.kind = TRACE;
    else if (theme == 3 && r.p(0.85)) { o.kind = READ; o.fmt = fmt; }
    pool.push_back(o);
  }
  std::vector<Op> hist;
  std::vector<int> which;
  int len = r.range(n, std::min(CAP, 3 * n + 2));
  for (int i = 0; i < len; i++) { int k = i < n ? i : (int)r.u((uint32_t)n); which.push_back(k); hist.push_back(pool[(size_t)k]); }
  for (int i = 0; i < n; i++) {
    slots[CAP + i] = Slot();
    in_child({pool[(size_t)i]}, &slots[CAP + i], 0);
  }
  for (int i = 0; i < len; i++) slots[i] = Slot();
  in_child(hist, slots, r.next() | 1);
  bool gf = false;
  int compared = 0;
  for (int i = 0; i < len; i++) {
    const Slot &a = slots[i], &f = slots[CAP + which[(size_t)i]];
    say("%2d: op %d %s\n", i, which[(size_t)i], a.text);
    if (a.ugs && gf) count("ugs_after_gf_skipped");
    else {
      compared++;
      if (a.solid) count("solid_comparisons");
      if (a.digest != f.digest) { report(i >= n ? "differs-when-repeated" : "differs-after-others", "call %d of %d gave \"%s\", in a fresh process \"%s\"; before it: %s", i + 1, len, a.text, f.text, i ? slots[i - 1].text : "nothing"); break; }
    }
    if (a.gf) gf = true;
    use_hash(a.digest);
  }
  count("calls_compared", compared);
  c.nontrivial = compared > 1;
  sample("history of %d calls over %d different ones, e.g. %s; %s", len, n, slots[0].text, slots[len - 1].text);
}

// One operation; the case hash is its digest, which the driver compares between processes whose
// heaps are filled with different bytes.
MODE(digest) {
  Op o = gen_op(c.rng);
  Done d = perform(o);
  say("%s\n", d.text);
  use_hash(d.digest);
  c.nontrivial = d.solid;
  if (d.solid) sample("%s", d.text);
}

// ---- C14 ----
static void check_defaults() {
  at_fitting_opts_type *o = at_fitting_opts_new();
  struct { const char *name; double got, want; } t[] = {
    {"charcode", (double)o->charcode, 0}, {"color_count", (double)o->color_count, 0}, {"corner_always_threshold", o->corner_always_threshold, 60},
    {"corner_surround", (double)o->corner_surround, 4}, {"corner_threshold", o->corner_threshold, 100}, {"error_threshold", o->error_threshold, 2},
    {"filter_iterations", (double)o->filter_iterations, 4}, {"line_reversion_threshold", o->line_reversion_threshold, .01}, {"line_threshold", o->line_threshold, 1},
    {"remove_adjacent_corners", (double)o->remove_adjacent_corners, 0}, {"remove_knees", (double)o->remove_knees, 0}, {"tangent_surround", (double)o->tangent_surround, 3}, {"despeckle_level", (double)o->despeckle_level, 0},
    {"despeckle_tightness", o->despeckle_tightness, 2}, {"noise_removal", o->noise_removal, .99}, {"centerline", (double)o->centerline, 0}, {"preserve_width", (double)o->preserve_width, 0}, {"width_weight_factor", o->width_weight_factor, 6}};
  for (auto &x : t) if (fabs(x.got - x.want) > 1e-6) report("default", "the default of %s is %g, documented is %g", x.name, x.got, x.want);
  if (o->background_color) report("default", "new fitting options have a background colour");
  at_fitting_opts_free(o);
  at_input_opts_type *i = at_input_opts_new();
  if (i->background_color || i->charcode) report("default", "new input options have background %p, charcode %u", (void *)i->background_color, i->charcode);
  at_input_opts_free(i);
  at_output_opts_type *p = at_output_opts_new();
  if (p->dpi != 72) report("default", "new output options have dpi %d", p->dpi);
  at_output_opts_free(p);
  count("defaults_compared", sizeof t / sizeof *t + 3);
}
static void check_copies(Rng &r) {
  GenOpt g;
  g.maxdim = 20;
  Img im = gen_image(r, g);
  at_fitting_opts_type *o = gen_opts(r, im);
  o->charcode = r.u(256);
  uint64_t h = hash_opts(o);
  at_fitting_opts_type *q = at_fitting_opts_copy(o);
  if (hash_opts(o) != h) report("original-changed", "copying the fitting options changed them");
  if (hash_opts(q) != h) report("copy-differs", "the copy of the fitting options differs");
  if (q == o || (o->background_color && q->background_color == o->background_color)) report("copy-shares", "the copy of the fitting options shares storage");
  bool drop_original = r.p(0.5);
  at_fitting_opts_type *dead = drop_original ? o : q, *live = drop_original ? q : o;
  if (dead->background_color) { dead->background_color->r ^= 0x55; dead->background_color->g ^= 0xaa; }
  dead->color_count ^= 77; dead->error_threshold += 1; dead->corner_surround += 3;
  if (hash_opts(live) != h) report("copy-shares", "changing one of the fitting options and its copy changed the other");
  at_fitting_opts_free(dead);
  if (hash_opts(live) != h) report("copy-shares", "freeing one of the fitting options and its copy changed the other");
  at_fitting_opts_free(live);

  at_input_opts_type *i = at_input_opts_new();
  i->charcode = r.u(300);
  if (r.p(0.6)) i->background_color = at_color_new((unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256));
  at_input_opts_type *j = at_input_opts_copy(i);
  if (j->charcode != i->charcode || !!i->background_color != !!j->background_color || (i->background_color && !(rgb(*i->background_color) == rgb(*j->background_color)))) report("copy-differs", "the copy of the input options differs");
  if (i->background_color && i->background_color == j->background_color) report("copy-shares", "the copy of the input options shares its background colour");
  if (j->background_color) { at_color keep = *j->background_color; i->background_color->b ^= 0xff; if (!(rgb(*j->background_color) == rgb(keep))) report("copy-shares", "changing the input options changed their copy"); }
  at_input_opts_free(r.p(0.5) ? std::swap(i, j), j : j);
  volatile unsigned x = i->charcode; (void)x;
  if (i->background_color) { volatile int y = i->background_color->r; (void)y; }
  at_input_opts_free(i);

  at_output_opts_type *a = at_output_opts_new();
  a->dpi = r.range(1, 2000);
  at_output_opts_type *b = at_output_opts_copy(a);
  if (a == b || a->dpi != b->dpi) report("copy-differs", "the copy of the output options differs");
  int dpi = a->dpi;
  a->dpi++;
  if (b->dpi != dpi) report("copy-shares", "the output options and their copy share storage");
  at_output_opts_free(a);
  at_output_opts_free(b);

  if (r.p(0.05)) { im.w = r.p(0.5) ? 0 : im.w; im.h = im.w && r.p(0.8) ? 0 : im.h; im.px.resize((size_t)im.w * im.h * im.np); }
  at_bitmap *m = to_bitmap(im);
  uint64_t mh = hash_bitmap(m);
  at_bitmap *k = at_bitmap_copy(m);
  if (hash_bitmap(k) != mh) report("copy-differs", "the copy of a %dx%dx%d bitmap differs", im.w, im.h, im.np);
  if (hash_bitmap(m) != mh) report("original-changed", "copying a bitmap changed it");
  if (k->bitmap && k->bitmap == m->bitmap) report("copy-shares", "the copy of a bitmap shares its pixels");
  if (r.p(0.5)) std::swap(m, k);
  for (size_t z = 0; z < (size_t)m->width * m->height * m->np; z++) m->bitmap[z] ^= 0x5a;
  if (hash_bitmap(k) != mh) report("copy-shares", "changing one of a bitmap and its copy changed the other");
  at_bitmap_free(m);
  if (hash_bitmap(k) != mh) report("copy-shares", "freeing one of a bitmap and its copy changed the other");
  at_bitmap_free(k);
  count("copies_compared", 4);
}
MODE(args) {
  Rng &r = c.rng;
  bool loc = !strcmp(c.arg, "locale");
  if (loc && !setlocale(LC_ALL, "")) harness_error("the locale cannot be used");
  std::string before = setlocale(LC_ALL, nullptr);
  g_watch = true;
  int kind = (int)r.u(12);
  if (kind == 0) check_defaults();
  if (kind <= 1) { check_copies(r); c.nontrivial = true; use_hash(r.next()); }
  else {
    Op o = gen_op(r);
    Done d = perform(o);
    say("%s\n", d.text);
    use_hash(d.digest);
    c.nontrivial = d.digest != 0 && o.kind != OBJECTS;
    sample("%s", d.text);
  }
  std::string after = setlocale(LC_ALL, nullptr);
  if (before != after) { report("locale-changed", "the call changed the process locale from %s to %s", before.c_str(), after.c_str()); setlocale(LC_ALL, before.c_str()); }
  else count("locale_compared");
}

// ---- C15 ----
static void judge_growth(size_t *blocks, size_t *bytes, const std::string &what) {
  bool grew = blocks[3] > blocks[2] && blocks[2] > blocks[1];
  grew |= bytes[3] > bytes[2] && bytes[2] > bytes[1];
  if (!grew) return;
  char d[400];
  mem_describe(d, sizeof d);
  report("leak", "every repetition leaves %zu more blocks (%zu bytes), first by %s: %s", blocks[3] - blocks[2], bytes[3] - bytes[2], d, what.c_str());
}
MODE(leak) {
  Rng &r = c.rng;
  std::vector<Op> ops;
  int n = r.p(0.6) ? 1 : r.range(2, 3);
  for (int i = 0; i < n; i++) ops.push_back(gen_op(r));
  std::string what;
  what.reserve(1000);
  size_t blocks[4], bytes[4];
  int fds = open_fds();
  uint64_t digest = 0;
  mem_forget();
  for (int k = 0; k < 4; k++) {
    for (auto &o : ops) {
      mem_track(true);
      Done d = perform(o);
      mem_track(false);
      if (!k) { if (!what.empty()) what += "; "; what += d.text; digest ^= d.digest; if (d.digest) c.nontrivial = true; }
      count("calls");
    }
    blocks[k] = mem_live();
    bytes[k] = mem_live_bytes();
    int now = open_fds();
    if (now != fds) { report("descriptor-left-open", "%d descriptors open before, %d after: %s", fds, now, what.c_str()); fds = now; }
  }
  say("%s: blocks %zu %zu %zu %zu\n", what.c_str(), blocks[0], blocks[1], blocks[2], blocks[3]);
  judge_growth(blocks, bytes, what);
  if (blocks[0]) count("first_call_keeps_memory");
  mem_forget();
  use_hash(digest);
  sample("%s: %zu blocks live after each of four repetitions", what.c_str(), blocks[3]);
  // a trace cancelled at each poll
  if (ops[0].kind == TRACE && !reported_any()) {
    g_poll_at = -2;
    perform(ops[0]);
    long N = g_polls, cap = c.thorough ? 60 : 16;
    for (long j = 0; j < std::min(N, cap) && !reported_any(); j++) {
      g_poll_at = N <= cap ? j : j < cap / 2 ? (long)r.u((uint32_t)N) : N - 1 - (j - cap / 2);
      mem_forget();
      for (int k = 0; k < 4; k++) {
        mem_track(true);
        perform(ops[0]);
        mem_track(false);
        blocks[k] = mem_live();
        bytes[k] = mem_live_bytes();
        if (!blocks[k]) { if (k) break; blocks[1] = blocks[2] = blocks[3] = bytes[1] = bytes[2] = bytes[3] = 0; break; }
      }
      char t[200];
      snprintf(t, sizeof t, "cancelled at poll %ld of %ld", g_poll_at, N);
      judge_growth(blocks, bytes, t);
      count("cancelled_traces");
    }
    mem_forget();
    g_poll_at = -1;
  }
}

// Mode faults (C15): one file cut at many places and damaged in many ways, or one drawing written to streams that
// fail at many places; each call repeated until it leaves nothing, at most four times.
static void read_once(const char *suffix, const char *path, int charcode, bool bg, int &fatal) {
  at_input_opts_type *o = at_input_opts_new();
  o->charcode = (unsigned)charcode;
  if (bg) o->background_color = at_color_new(1, 200, 3);
  char name[700];
  snprintf(name, sizeof name, "%s", path);
  Msgs m;
  at_bitmap *b = at_bitmap_read(reader(suffix), name, o, msg_cb, &m);
  fatal = m.fatal;
  if (b) at_bitmap_free(b);
  at_input_opts_free(o);
}
template <class F> static bool leaves_nothing(F call, const std::string &what) {
  size_t blocks[4], bytes[4];
  int fds = open_fds();
  mem_forget();
  for (int k = 0; k < 4; k++) {
    mem_track(true);
    call();
    mem_track(false);
    blocks[k] = mem_live();
    bytes[k] = mem_live_bytes();
    if (!blocks[k]) { for (; k < 4; k++) blocks[k] = bytes[k] = 0; break; }
  }
  int now = open_fds();
  if (now != fds) report("descriptor-left-open", "%d descriptors open before, %d after: %s", fds, now, what.c_str());
  judge_growth(blocks, bytes, what);
  mem_forget();
  count("faults");
  return !reported_any();
}
MODE(faults) {
  Rng &r = c.rng;
  char t[300];
  if (c.idx % 3 != 2) {
    int fmt = (int)(c.idx % NENC);
    Encoded e = gen_encoded(r, fmt, 12);
    const char *path = scratch_path("in.img");
    size_t n = e.data.size();
    std::vector<size_t> cuts;
    size_t all = c.thorough ? 400 : 60;
    if (n <= all) for (size_t i = 0; i < n; i++) cuts.push_back(i);
    else for (size_t i = 0; i < all / 2; i++) cuts.push_back(i % 3 ? r.u((uint32_t)n) : e.body + i < n ? e.body + r.u((uint32_t)(n - e.body)) : i);
    bool bg = r.p(0.4);
    int fatal = 0, reported = 0;
    for (size_t cut : cuts) {
      write_file(path, e.data.data(), cut);
      snprintf(t, sizeof t, "read %s cut to %zu of %zu bytes (pixels at %zu)", e.variant, cut, n, e.body);
      if (!leaves_nothing([&] { read_once(e.suffix, path, e.charcode, bg, fatal); }, t)) return;
      reported += !!fatal;
    }
    for (int k = c.thorough ? 60 : 16; k--;) {
      Bytes d = e.data;
      if (d.size() > e.body && r.p(0.5)) for (int j = r.range(1, 4); j--;) d[e.body + r.u((uint32_t)(d.size() - e.body))] = (unsigned char)r.next();
      else for (int j = r.range(1, 2); j--;) d[r.u((uint32_t)std::min(d.size(), e.body + 1))] = (unsigned char)(r.p(0.5) ? r.u(8) : r.u(256));
      if (r.p(0.3)) d.resize(r.u((uint32_t)d.size() + 1));
      if (fmt == 3 && r.p(0.8)) fix_png_crcs(d);
      // sizes of many millions of pixels take long and prove nothing more
      if (n > 22 && fmt == 1 && d.size() > 22) d[20] = d[21] = 0;
      write_file(path, d.data(), d.size());
      snprintf(t, sizeof t, "read %s damaged (file %016llx)", e.variant, (unsigned long long)hash_bytes(d.data(), d.size()));
      if (!leaves_nothing([&] { read_once(e.suffix, path, e.charcode, bg, fatal); }, t)) return;
      reported += !!fatal;
    }
    use_hash(hash_bytes(e.data.data(), n));
    count("faults_reported", reported);
    c.nontrivial = reported > 0;
    sample("%s, %zu bytes: %zu cuts, %d readings refused, nothing left behind", e.variant, n, cuts.size(), reported);
    return;
  }
  const char *suffix = WRITERS[(c.idx / 3) % NWRITERS];
  SplineGen g;
  g.maxdim = 100; g.maxcolors = 6; g.maxlists = 6; g.maxsplines = 6;
  at_splines_type *s = gen_splines(r, g);
  char name[] = "drawing";
  at_spline_writer *w = writer(suffix);
  size_t room = (size_t)1 << 30, size;
  auto write_once = [&](size_t limit, bool buffered) {
    room = limit;
    mem_track(false);
    FILE *f = fopencookie(&room, "wb", cookie_io_functions_t{nullptr, full_device, nullptr, nullptr});
    if (!buffered) setvbuf(f, nullptr, _IONBF, 0);
    mem_track(true);
    Msgs m;
    at_splines_write(w, f, name, nullptr, s, msg_cb, &m);
    mem_track(false);
    fclose(f);
    mem_track(true);
  };
  write_once((size_t)1 << 30, true);
  mem_track(false);
  size = ((size_t)1 << 30) - room;
  for (int k = 0; k < (c.thorough ? 60 : 16) && !reported_any(); k++) {
    size_t limit = k == 0 ? 0 : r.u((uint32_t)size + 1);
    bool buffered = r.p(0.3);
    snprintf(t, sizeof t, "write %s, %u lists, stream fails after %zu of %zu bytes", suffix, s->length, limit, size);
    leaves_nothing([&] { write_once(limit, buffered); }, t);
    count("failed_writes");
  }
  use_hash(hash_splines(s));
  use_hash((uint64_t)size);
  c.nontrivial = size > 0;
  sample("write %s, %u lists, %zu bytes: nothing left behind wherever the stream failed", suffix, s->length, size);
  splines_deep_free(s);
}

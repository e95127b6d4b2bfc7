// Modes registry (C31): formats added by the caller; nested (C33): calls made from callbacks.
#include "geom.hpp"
#include "input.h"
#include "output.h"

// What a handler added by the harness was given.
struct ReadCall {
  int calls = 0, by = -1;
  char name[300] = "";
  bool have_opts = false, have_bg = false;
  unsigned charcode = 0;
  RGB bg{0, 0, 0};
};
struct WriteCall {
  int calls = 0, by = -1;
  char name[300] = "";
  int box[4] = {-1, -1, -1, -1};
  bool have_opts = false, same_stream = false, same_shape = false, point = false;
  int dpi = 0;
};
static ReadCall g_read;
static WriteCall g_write;
static Img g_give;                        // what the readers return
static const at_splines_type *g_expect;
static FILE *g_stream;
static bool g_talk;
static const char *const SAY_READ = "a message of the reader", *const SAY_WRITE = "a message of the writer";
static at_bitmap do_read(int by, char *name, at_input_opts_type *o, at_msg_func f, void *d) {
  g_read.calls++;
  g_read.by = by;
  snprintf(g_read.name, sizeof g_read.name, "%s", name ? name : "(null)");
  g_read.have_opts = o != nullptr;
  if (o) { g_read.charcode = o->charcode; g_read.have_bg = o->background_color != nullptr; if (o->background_color) g_read.bg = rgb(*o->background_color); }
  if (g_talk && f) f(SAY_READ, AT_MSG_WARNING, d);
  at_bitmap b = at_bitmap_init(nullptr, (unsigned short)g_give.w, (unsigned short)g_give.h, (unsigned)g_give.np);
  if (b.bitmap) memcpy(b.bitmap, g_give.px.data(), g_give.px.size());
  return b;
}
static int do_write(int by, FILE *f, char *name, int x0, int y0, int x1, int y1, at_output_opts_type *o, at_splines_type *s, at_msg_func m, void *d) {
  g_write.calls++;
  g_write.by = by;
  snprintf(g_write.name, sizeof g_write.name, "%s", name ? name : "(null)");
  g_write.box[0] = x0; g_write.box[1] = y0; g_write.box[2] = x1; g_write.box[3] = y1;
  g_write.have_opts = o != nullptr;
  if (o) g_write.dpi = o->dpi;
  g_write.same_stream = f == g_stream;
  char why[200] = "";
  g_write.same_shape = s->width == g_expect->width && s->height == g_expect->height && s->centerline == g_expect->centerline && s->preserve_width == g_expect->preserve_width &&
                       s->width_weight_factor == g_expect->width_weight_factor && !s->background_color == !g_expect->background_color &&
                       (!s->background_color || rgb(*s->background_color) == rgb(*g_expect->background_color)) && splines_same(s, g_expect, true, why, sizeof why);
  if (g_talk && m) m(SAY_WRITE, AT_MSG_FATAL, d);
  if (f) fprintf(f, "%s %d\n", "written by", by);
  return 0;
}
#define HANDLERS(n) \
  static at_bitmap read_##n(char *a, at_input_opts_type *o, at_msg_func m, void *d, void *) { return do_read(n, a, o, m, d); } \
  static int write_##n(FILE *f, char *a, int x0, int y0, int x1, int y1, at_output_opts_type *o, at_splines_type s, at_msg_func m, void *d, void *) { return do_write(n, f, a, x0, y0, x1, y1, o, &s, m, d); }
HANDLERS(0) HANDLERS(1) HANDLERS(2) HANDLERS(3)
static const at_input_func READ[] = {read_0, read_1, read_2, read_3};
static const at_output_func WRITE[] = {write_0, write_1, write_2, write_3};

// one registration made in this case
struct Added { char suffix[120], description[120]; int in, by; const void *handler; };
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
static bool ieq(const char *a, const char *b) { for (; *a && *b; a++, b++) if (low(*a) != low(*b)) return false; return !*a && !*b; }
static void swap_case(Rng &r, char *s) { for (; *s; s++) { if (*s >= 'a' && *s <= 'z' && r.p(0.5)) *s = (char)(*s - 'a' + 'A'); else if (*s >= 'A' && *s <= 'Z' && r.p(0.5)) *s = low(*s); } }
static const void *look(Rng &r, bool in, const char *suffix, bool by_name) {
  char t[400];
  const void *h;
  if (by_name) snprintf(t, sizeof t, "%s.%s", r.p(0.5) ? "dir.bmp/na.me" : "x", suffix);
  else snprintf(t, sizeof t, "%s", suffix);
  if (by_name) h = in ? (const void *)at_input_get_handler(t) : (const void *)at_output_get_handler(t);
  else h = in ? (const void *)at_input_get_handler_by_suffix(t) : (const void *)at_output_get_handler_by_suffix(t);
  if (h) unpoison(h, 64);   // it was filled in by code that is not instrumented
  return h;
}
static bool formats_listed(bool in, char **buf) {
  size_t n = 0;
  FILE *f = open_memstream(buf, &n);
  if (!f) return false;
  if (in) printInputFormatInfo(f); else printOutputFormatInfo(f);
  fclose(f);
  unpoison(*buf, n + 1);
  return true;
}
// the number of lines that list a suffix, and whether one of them has the description
static int lines_for(const char *list, const char *suffix, const char *description, bool *described) {
  int n = 0;
  *described = false;
  for (const char *p = list; *p;) {
    const char *e = strchr(p, '\n');
    size_t len = e ? (size_t)(e - p) : strlen(p);
    char line[600];
    snprintf(line, sizeof line, "%.*s", (int)std::min(len, sizeof line - 1), p);
    char *q = line + strspn(line, " \t.");
    size_t k = strcspn(q, " \t:");
    char *rest = q + k;
    if (*rest) { *rest++ = 0; rest += strspn(rest, " \t:"); }
    if (ieq(q, suffix)) { n++; if (!strcmp(rest, description)) *described = true; }
    p = e ? e + 1 : p + len;
  }
  return n;
}

MODE(registry) {
  Rng &r = c.rng;
  // handlers of the program's own formats, as they were before anything was added
  struct Own { const char *suffix; int in; const void *h; } own[64];
  int nown = 0;
  for (int i = 0; i < NREADERS && nown < 60; i++) own[nown++] = Own{READERS[i], 1, look(r, true, READERS[i], false)};
  for (int i = 0; i < NWRITERS && nown < 60; i++) own[nown++] = Own{WRITERS[i], 0, look(r, false, WRITERS[i], false)};
  std::vector<Added> added;
  char id[24];                   // keeps the suffixes of different cases apart
  snprintf(id, sizeof id, "%llx", (unsigned long long)(c.seed % 4096 * 1000000 + (uint64_t)c.idx));
  static const char AL[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_+~";
  auto new_suffix = [&](char *t, size_t n) {
    size_t len = (size_t)snprintf(t, n, "z%s", id), more = (size_t)(r.p(0.1) ? r.range(40, 80) : r.range(1, 5));
    if (r.p(0.3)) { memmove(t + 1, t, len); t[0] = AL[r.u(sizeof AL - 1)]; len++; t[len] = 0; }
    for (size_t k = 0; k < more && len + 2 < n; k++) t[len++] = r.p(0.02) ? (char)r.range(128, 255) : AL[r.u(sizeof AL - 1)];
    t[len] = 0;
  };
  int steps = r.range(4, r.p(0.05) ? 120 : 25), reads = 0, writes = 0, again = 0;
  uint64_t hist = 0;
  at_splines_type *shape = nullptr;
  for (int step = 0; step < steps && !reported_any(); step++) {
    int what = (int)r.u(10);
    hist = hist * 31 + (uint64_t)what;
    bool in = r.p(0.5);
    if (what < 3 || added.empty()) {                     // a new format
      Added a;
      memset(&a, 0, sizeof a);
      new_suffix(a.suffix, sizeof a.suffix);
      bool known = false;
      for (auto &x : added) if (ieq(x.suffix, a.suffix)) known = true;
      if (known) continue;
      snprintf(a.description, sizeof a.description, "format %d of case %ld, kind %u", step, c.idx, r.u(1000));
      a.in = in;
      a.by = (int)r.u(4);
      if (look(r, in, a.suffix, false)) { report("found-before", "a format is found before it is added"); break; }
      char *s = strdup(a.suffix), *d = strdup(a.description);     // the caller's strings may go away
      int ok = in ? (r.p(0.5) ? at_input_add_handler(s, d, READ[a.by]) : at_input_add_handler_full(s, d, READ[a.by])) : at_output_add_handler(s, d, WRITE[a.by]);
      memset(s, '?', strlen(s)); memset(d, '?', strlen(d));
      free(s); free(d);
      if (!ok) { report("not-added", "adding a format fails"); break; }
      a.handler = look(r, in, a.suffix, false);
      if (!a.handler) { report("not-found", "an added %s format is not found", in ? "input" : "output"); break; }
      const void *other = look(r, !in, a.suffix, false);
      bool both = false;
      for (auto &x : added) if (x.in != a.in && ieq(x.suffix, a.suffix)) both = true;
      if (other && !both) { report("found-in-other", "a format added for %s is found for %s", in ? "input" : "output", in ? "output" : "input"); break; }
      added.push_back(a);
      count("formats_added");
    } else if (what < 5) {                               // the same suffix again: nothing changes
      again++;
      char s[160], d[] = "another description";
      int by = (int)r.u(4);
      const void *before, *after;
      bool i;
      if (r.p(0.4)) { const Own &w = own[r.u((uint32_t)nown)]; snprintf(s, sizeof s, "%s", w.suffix); i = w.in; before = w.h; }
      else { const Added &a = added[r.u((uint32_t)added.size())]; snprintf(s, sizeof s, "%s", a.suffix); i = a.in; before = a.handler; }
      swap_case(r, s);
      if (i) at_input_add_handler(s, d, READ[by]); else at_output_add_handler(s, d, WRITE[by]);
      after = look(r, i, s, false);
      if (before != after) report("replaced", "adding \"%s\" again gives another handler", s);
      count("formats_added_again");
    } else if (what == 5 && r.p(0.5)) {                  // incomplete registrations
      char s[160];
      new_suffix(s, sizeof s);
      int k = (int)r.u(3);
      if (look(r, in, s, false)) continue;
      int ok = in ? at_input_add_handler(k == 0 ? nullptr : s, k == 1 ? nullptr : "d", k == 2 ? nullptr : READ[0]) : at_output_add_handler(k == 0 ? nullptr : s, k == 1 ? nullptr : "d", k == 2 ? nullptr : WRITE[0]);
      if (ok) report("incomplete-accepted", "adding a format without %s succeeds", k == 0 ? "suffix" : k == 1 ? "description" : "function");
      if (k && look(r, in, s, false)) report("incomplete-accepted", "a format added without %s is found", k == 1 ? "description" : "function");
      count("incomplete_additions");
    } else {                                             // use one of them
      const Added &a = added[r.u((uint32_t)added.size())];
      char s[160], name[320];
      snprintf(s, sizeof s, "%s", a.suffix);
      swap_case(r, s);
      const void *h = look(r, a.in, s, r.p(0.5));
      if (h != a.handler) { report("other-handler", "the handler found for an added format is another one than before"); break; }
      if (r.p(0.5)) h = a.handler;
      Msgs m;
      g_talk = r.p(0.5);
      snprintf(name, sizeof name, "%s%u.%s", r.p(0.5) ? "/no/such/dir/" : "", r.u(1000), s);
      bool no_msg = r.p(0.2);
      if (a.in) {
        g_give = r.p(0.1) ? Img(0, 0, 1) : Img(r.range(1, 30), r.range(1, 30), r.p(0.5) ? 1 : 3);
        for (auto &v : g_give.px) v = (unsigned char)r.next();
        at_input_opts_type *o = r.p(0.4) ? nullptr : at_input_opts_new();
        bool bg = false;
        RGB k{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
        if (o) { o->charcode = r.u(256); if (r.p(0.5)) { bg = true; o->background_color = new_color(k); } }
        at_input_opts_type *def = at_input_opts_new();
        g_read = ReadCall();
        at_bitmap *b = at_bitmap_read((at_bitmap_reader *)h, name, o, no_msg ? nullptr : msg_cb, no_msg ? nullptr : &m);
        if (g_read.calls != 1) report("calls", "the added reader is called %d times", g_read.calls);
        else {
          if (g_read.by != a.by) report("other-function", "reader %d is called instead of %d", g_read.by, a.by);
          if (strcmp(g_read.name, name)) report("name", "the reader gets the name \"%s\" instead of \"%s\"", g_read.name, name);
          if (!g_read.have_opts) report("options", "the reader gets no options");
          else if (g_read.charcode != (o ? o->charcode : def->charcode) || g_read.have_bg != (o ? bg : def->background_color != nullptr) || (o && bg && g_read.bg != k)) report("options", "the reader gets other options");
        }
        if (m.total() != (g_talk && !no_msg ? 1 : 0) || (m.total() && (strcmp(m.first, SAY_READ) || !m.warning))) report("message", "the reader's message arrives as %d messages, \"%s\"", m.total(), m.first);
        if (!b) report("no-bitmap", "the read returns nothing");
        else {
          if (b->width != g_give.w || b->height != g_give.h || b->np != (unsigned)g_give.np) report("bitmap", "the reader's bitmap of %dx%d arrives as %ux%u", g_give.w, g_give.h, b->width, b->height);
          else if (!g_give.px.empty() && memcmp(b->bitmap, g_give.px.data(), g_give.px.size())) report("bitmap", "the reader's pixels arrive changed");
          at_bitmap_free(b);
        }
        at_input_opts_free(def);
        if (o) at_input_opts_free(o);
        reads++;
        count("reads");
      } else {
        if (!shape) { SplineGen sg; sg.maxlists = 4; sg.maxsplines = 5; shape = gen_splines(r, sg); }
        at_output_opts_type *o = r.p(0.4) ? nullptr : at_output_opts_new(), *def = at_output_opts_new();
        if (o) o->dpi = r.range(1, 2000);
        char *buf = nullptr;
        size_t n = 0;
        FILE *f = open_memstream(&buf, &n);
        if (!f) harness_error("open_memstream failed");
        g_write = WriteCall();
        g_expect = shape;
        g_stream = f;
        bool no_name = r.p(0.2);
        at_splines_write((at_spline_writer *)h, f, no_name ? nullptr : name, o, shape, no_msg ? nullptr : msg_cb, no_msg ? nullptr : &m);
        if (g_write.calls != 1) report("calls", "the added writer is called %d times", g_write.calls);
        else {
          if (g_write.by != a.by) report("other-function", "writer %d is called instead of %d", g_write.by, a.by);
          if (strcmp(g_write.name, no_name ? "" : name)) report("name", "the writer gets the name \"%s\" instead of \"%s\"", g_write.name, no_name ? "" : name);
          if (!g_write.have_opts || g_write.dpi != (o ? o->dpi : def->dpi)) report("options", "the writer gets other options");
          if (!g_write.same_stream) report("stream", "the writer gets another stream");
          if (!g_write.same_shape) report("splines", "the writer gets other splines");
          if (g_write.box[0] || g_write.box[1] || g_write.box[2] != shape->width || g_write.box[3] != shape->height) report("frame", "the writer gets the frame %d %d %d %d for %ux%u", g_write.box[0], g_write.box[1], g_write.box[2], g_write.box[3], shape->width, shape->height);
        }
        if (m.total() != (g_talk && !no_msg ? 1 : 0) || (m.total() && (strcmp(m.first, SAY_WRITE) || !m.fatal))) report("message", "the writer's message arrives as %d messages, \"%s\"", m.total(), m.first);
        if (fprintf(f, "end") != 3 || fclose(f)) report("stream", "the stream cannot be used after the write");
        else {
          char want[60];
          unpoison(buf, n + 1);
          snprintf(want, sizeof want, "written by %d\nend", g_write.by);
          if (strcmp(buf, want)) report("stream", "the stream holds \"%.40s\"", buf);
        }
        free(buf);
        at_output_opts_free(def);
        if (o) at_output_opts_free(o);
        writes++;
        count("writes");
      }
    }
  }
  for (int i = 0; i < nown && !reported_any(); i++) if (look(r, own[i].in, own[i].suffix, false) != own[i].h) report("own-format", "the handler of %s is another one after adding formats", own[i].suffix);
  for (auto &a : added) if (!reported_any() && look(r, a.in, a.suffix, false) != a.handler) report("other-handler", "an added format has another handler in the end");
  if (r.p(0.1) && !reported_any()) {
    char *li = nullptr, *lo = nullptr;
    if (!formats_listed(true, &li) || !formats_listed(false, &lo)) harness_error("open_memstream failed");
    for (auto &a : added) {
      bool described;
      int n = lines_for(a.in ? li : lo, a.suffix, a.description, &described);
      if (n != 1 || !described) report("listing", "an added format is listed %d times%s", n, n && !described ? " with another description" : "");
      count("formats_listed");
    }
    free(li); free(lo);
  }
  if (shape) splines_deep_free(shape);
  use_hash(hist); use_hash(hash_bytes(id, strlen(id)));
  if (reads || writes) { c.nontrivial = true; sample("%zu formats added, %d again, %d reads and %d writes through them", added.size(), again, reads, writes); }
}

// ---- C33: calls made from callbacks ----
struct Inner {
  Rng rng{1};
  int depth = 0, budget = 0, done = 0;
  Img im;
  at_fitting_opts_type *opts = nullptr;
  uint64_t want_trace = 0, want_read = 0, want_write = 0;
  char path[600] = "";
  const char *rsuf = "", *wsuf = "";
  at_splines_type *shape = nullptr;
  bool bad = false;
};
static Inner *g_inner;
static uint64_t trace_digest(const Img &im, at_fitting_opts_type *o, at_msg_func f, void *fd, at_progress_func p, void *pd, at_testcancel_func t, void *td) {
  at_bitmap *b = to_bitmap(im);
  at_splines_type *s = at_splines_new_full(b, o, f, fd, p, pd, t, td);
  Img after = from_bitmap(b);
  uint64_t h = after.hash() * 3 + (s ? hash_splines(s) : 1);
  if (s) at_splines_free(s);
  at_bitmap_free(b);
  return h;
}
static uint64_t read_digest(const char *path, const char *suffix, at_msg_func f, void *fd) {
  char t[600];
  snprintf(t, sizeof t, "%s", path);
  at_bitmap *b = at_bitmap_read(reader(suffix), t, nullptr, f, fd);
  uint64_t h = b ? hash_bytes(b->bitmap, (size_t)b->width * b->height * b->np, b->width * 65537ull + b->height) : 0;
  if (b) at_bitmap_free(b);
  return h;
}
static uint64_t write_digest(const char *suffix, at_splines_type *s, at_msg_func f, void *fd) {
  char *buf = nullptr, name[] = "drawing";
  size_t n = 0;
  FILE *m = open_memstream(&buf, &n);
  if (!m) harness_error("open_memstream failed");
  at_splines_write(writer(suffix), m, name, nullptr, s, f, fd);
  fclose(m);
  unpoison(buf, n);
  uint64_t h = hash_bytes(buf, n);
  free(buf);
  return h;
}
// something the callback does; its own result has to be right, too
static void inner_call(const char *from) {
  Inner *k = g_inner;
  if (!k || k->depth || k->done >= k->budget || !k->rng.p(0.5)) return;
  k->depth++;
  k->done++;
  int what = (int)k->rng.u(3);
  uint64_t got, want;
  Msgs quiet;
  if (what == 0) { got = trace_digest(k->im, k->opts, msg_cb, &quiet, nullptr, nullptr, nullptr, nullptr); want = k->want_trace; }
  else if (what == 1) { got = read_digest(k->path, k->rsuf, msg_cb, &quiet); want = k->want_read; }
  else { got = write_digest(k->wsuf, k->shape, msg_cb, &quiet); want = k->want_write; }
  if (got != want) { report("inner-result", "a %s made from a %s callback gives another result", what == 0 ? "trace" : what == 1 ? "read" : "write", from); k->bad = true; }
  count(what == 0 ? "inner_traces" : what == 1 ? "inner_reads" : "inner_writes");
  k->depth--;
}
struct Outer { Msgs m; int polls = 0; };
static void nest_msg(const char *t, at_msg_type y, void *d) { msg_cb(t, y, &((Outer *)d)->m); inner_call("message"); }
static void nest_progress(float, void *d) { (void)d; inner_call("progress"); }
static bool nest_cancel(void *d) { ((Outer *)d)->polls++; inner_call("cancel"); return false; }

// damage that leaves the declared size of the image alone
static void spoil(Rng &r, Encoded &e) {
  if (e.data.size() > e.body) for (int k = r.range(0, 3); k--;) e.data[e.body + r.u((uint32_t)(e.data.size() - e.body))] = (unsigned char)r.next();
  if (r.p(0.7)) e.data.resize(r.u((uint32_t)e.data.size() + 1));
}

static Encoded other_file(Rng &r) {
  for (;;) {
    int f = (int)r.u((uint32_t)NENC);
#if VARIANT_msan
    if (f == 3) f = 1;          // libpng is not instrumented
#endif
    Encoded e = gen_encoded(r, f, 16);
    if (strcmp(e.suffix, "gf")) return e;
  }
}

MODE(nested) {
  Rng &r = c.rng;
  Inner k;
  GenOpt g;
  g.maxdim = 20;
  k.im = r.p(0.5) ? gen_image(r, g) : gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255});
  k.opts = gen_opts(r, k.im);
  k.rng = Rng(r.next());
  Encoded e = other_file(r);
  k.rsuf = e.suffix;
  if (r.p(0.3)) spoil(r, e);
  snprintf(k.path, sizeof k.path, "%s", scratch_path("inner.img"));
  write_file(k.path, e.data.data(), e.data.size());
  SplineGen sg;
  sg.maxlists = 4; sg.maxsplines = 6; sg.maxdim = 100;
  k.shape = gen_splines(r, sg);
  do k.wsuf = WRITERS[r.u((uint32_t)NWRITERS)]; while (!strcmp(k.wsuf, "ugs"));
  Msgs q;
  setenv("AT_DATE_ZERO", "yes", 1);
  k.want_trace = trace_digest(k.im, k.opts, msg_cb, &q, nullptr, nullptr, nullptr, nullptr);
  k.want_read = read_digest(k.path, k.rsuf, msg_cb, &q);
  k.want_write = write_digest(k.wsuf, k.shape, msg_cb, &q);
  // the outer call, without and with calls from its callbacks
  int what = (int)r.u(5);
  Outer a, b;
  uint64_t plain, with;
  char done[120];
  if (what < 3) {
    g.maxdim = 30;
    Img im = r.p(0.5) ? gen_image(r, g) : gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255});
    at_fitting_opts_type *o = gen_opts(r, im);
    bool p = r.p(0.8), t = !p || r.p(0.6);
    plain = trace_digest(im, o, msg_cb, &a.m, nullptr, nullptr, nullptr, nullptr);
    g_inner = &k;
    k.budget = r.range(1, 6);
    with = trace_digest(im, o, nest_msg, &b, p ? nest_progress : nullptr, &b, t ? nest_cancel : nullptr, &b);
    use_hash(im.hash()); use_hash(hash_opts(o));
    snprintf(done, sizeof done, "trace of %dx%d", im.w, im.h);
    at_fitting_opts_free(o);
  } else if (what == 3) {
    Encoded e2 = other_file(r);
    if (r.p(0.9)) spoil(r, e2);
    char path[600];
    snprintf(path, sizeof path, "%s", scratch_path("outer.img"));
    write_file(path, e2.data.data(), e2.data.size());
    plain = read_digest(path, e2.suffix, msg_cb, &a.m);
    g_inner = &k;
    k.budget = 3;
    with = read_digest(path, e2.suffix, nest_msg, &b);
    use_hash(hash_bytes(e2.data.data(), e2.data.size()));
    snprintf(done, sizeof done, "read of %s", e2.suffix);
  } else {
    SplineGen s2;
    s2.maxlists = 6; s2.maxsplines = 6;
    const char *w = "pov";                                    // which has no centerlines
    if (r.p(0.4)) { w = r.p(0.7) ? "fig" : "ild"; s2.maxcolors = 900; s2.maxlists = 1500; }     // more than these have room for
    else s2.centerline = 1;
    if (r.p(0.4)) {                                           // the same format inside
      k.wsuf = w;
      k.want_write = write_digest(k.wsuf, k.shape, msg_cb, &q);
    }
    at_splines_type *s = gen_splines(r, s2);
    plain = write_digest(w, s, msg_cb, &a.m);
    g_inner = &k;
    k.budget = 3;
    with = write_digest(w, s, nest_msg, &b);
    use_hash(hash_splines(s));
    snprintf(done, sizeof done, "write of %s", w);
    splines_deep_free(s);
  }
  g_inner = nullptr;
  if (plain != with) report("outer-result", "a %s gives another result when its callbacks use the library", done);
  if (a.m.fatal != b.m.fatal || a.m.warning != b.m.warning || strcmp(a.m.first, b.m.first)) report("outer-messages", "a %s gives other messages when its callbacks use the library", done);
  if (k.done) { c.nontrivial = true; sample("%s with %d calls from its callbacks", done, k.done); }
  splines_deep_free(k.shape);
  at_fitting_opts_free(k.opts);
}

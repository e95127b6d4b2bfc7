// C34: stages of a trace; C35: kinds of streams; C36: options of stages that are off; C38: where outlines are divided.
#include "geom.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>

static at_splines_type *trace(at_bitmap *b, at_fitting_opts_type *o, Msgs &m) {
  return at_splines_new_full(b, o, msg_cb, &m, nullptr, nullptr, nullptr, nullptr);
}
static bool same_pixels(const at_bitmap *a, const at_bitmap *b) {
  size_t n = (size_t)a->width * a->height * a->np;
  return a->width == b->width && a->height == b->height && a->np == b->np && (!n || !memcmp(a->bitmap, b->bitmap, n));
}
static at_bitmap *bitmap_of(const at_bitmap *b) {
  at_bitmap *q = at_bitmap_new(b->width, b->height, b->np);
  size_t n = (size_t)b->width * b->height * b->np;
  if (n) memcpy(q->bitmap, b->bitmap, n);
  return q;
}
static Img any_image(Rng &r) {
  GenOpt g;
  g.maxdim = r.p(0.1) ? 70 : 28;
  g.maxcolors = r.p(0.5) ? 6 : 30;
  Img im = r.p(0.4) ? gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255}) : gen_image(r, g);
  if (r.p(0.6))                                    // colours near one another, speckles
    for (int k = r.range(1, 1 + im.w * im.h / 12); k-- && im.w && im.h;) {
      int x = (int)r.u((uint32_t)im.w), y = (int)r.u((uint32_t)im.h);
      RGB q = im.at(x, y);
      int d = r.p(0.7) ? 12 : 120;
      auto near = [&](int v) { return (unsigned char)std::max(0, std::min(255, v + r.range(-d, d))); };
      q = RGB{near(q.r), near(q.g), near(q.b)};
      if (im.np == 1) q.g = q.b = q.r;
      im.set(x, y, q);
    }
  return im;
}

MODE(stages) {
  Rng &r = c.rng;
  Img im = any_image(r);
  at_fitting_opts_type *o = gen_opts(r, im);
  if (o->color_count == 0 && r.p(0.7)) o->color_count = (unsigned)r.range(1, 12);
  if (o->despeckle_level == 0 && r.p(0.6)) { o->despeckle_level = (unsigned)r.range(1, 8); o->despeckle_tightness = (float)r.frange(0.1, 8); if (r.p(0.5)) o->noise_removal = (float)r.frange(0, 0.999); }
  unsigned colors = o->color_count, level = o->despeckle_level;
  print_opts(o);
  print_img(im, im.colors());
  Msgs m;
  at_bitmap *b0 = to_bitmap(im), *b = to_bitmap(im);
  at_splines_type *s = trace(b, o, m);
  if (!s) report("no-splines", "tracing %dx%d returned no splines: %s", im.w, im.h, m.first);
  char why[300];
  // one stage at a time
  bool center = o->centerline, width = o->preserve_width;
  at_bitmap *q = to_bitmap(im);
  at_splines_type *t[3] = {nullptr, nullptr, nullptr};
  o->centerline = false;
  o->color_count = 0;
  t[0] = trace(q, o, m);
  bool spots = !same_pixels(b0, q);
  if (spots && !level) report("changed-without-stage", "tracing without despeckling and colour reduction changed the pixels");
  at_bitmap *q1 = bitmap_of(q);
  o->color_count = colors;
  o->despeckle_level = 0;
  t[1] = trace(q, o, m);
  bool reduced = !same_pixels(q1, q);
  if (reduced && !colors) report("changed-without-stage", "tracing without despeckling and colour reduction changed the pixels");
  o->color_count = 0;
  o->centerline = center;
  at_bitmap *flat = bitmap_of(q);
  t[2] = trace(q, o, m);                            // the stages before are done: thinning and fitting are left
  bool thinned = !same_pixels(flat, q);
  if (thinned && !center) report("changed-without-stage", "outline tracing without despeckling and colour reduction changed the pixels");
  if (!reported_any() && !same_pixels(b, q)) report("stages-differ", "despeckling %u, reducing to %u colours%s in one trace leaves other pixels than in one trace each", level, colors, center ? " and thinning" : "");
  if (s && t[2] && !reported_any() && !splines_same(s, t[2], true, why, sizeof why)) report("splines-differ", "tracing the despeckled and reduced bitmap gives other splines than doing all in one trace: %s", why);
  if (s && t[2] && !reported_any() && center && !width) {     // what was thinned stays as it is
    at_bitmap *again = bitmap_of(q);
    at_splines_type *u = trace(again, o, m);
    if (!u) report("no-splines", "tracing the thinned bitmap returned no splines: %s", m.first);
    else {
      if (!same_pixels(again, q)) { report("thinned-again", "tracing the thinned %dx%dx%d bitmap thins it further", im.w, im.h, im.np); }
      else if (!splines_same(s, u, true, why, sizeof why)) report("thinned-splines-differ", "tracing the thinned bitmap gives other splines: %s", why);
      at_splines_free(u);
    }
    at_bitmap_free(again);
    count("thinned_bitmaps_traced_again");
  }
  count("despeckling_changed_pixels", spots);
  count("reduction_changed_pixels", reduced);
  count("thinning_changed_pixels", thinned);
  count("both_changed_pixels", spots && reduced);
  if (m.fatal) report("fatal-message", "tracing %dx%d: %s", im.w, im.h, m.first);
  use_hash(im.hash()); use_hash(hash_opts(o)); use_hash(colors * 64 + level);
  c.nontrivial = spots || reduced || thinned;
  if (c.nontrivial) sample("%dx%dx%d, despeckle %u, %u colours%s: %s%s%s", im.w, im.h, im.np, level, colors, center ? ", centerline" : "", spots ? "despeckled " : "", reduced ? "reduced " : "", thinned ? "thinned" : "");
  at_bitmap_free(b0); at_bitmap_free(b); at_bitmap_free(q); at_bitmap_free(q1); at_bitmap_free(flat);
  if (s) at_splines_free(s);
  for (auto x : t) if (x) at_splines_free(x);
  at_fitting_opts_free(o);
}

// ---- streams ----
struct Sink { Bytes got; };
static ssize_t sink_write(void *p, const char *d, size_t n) {
  Sink *s = (Sink *)p;
  s->got.insert(s->got.end(), (const unsigned char *)d, (const unsigned char *)d + n);
  return (ssize_t)n;
}
static bool differ(const unsigned char *a, const unsigned char *b, size_t n) { return n && memcmp(a, b, n); }
static void write_to(at_spline_writer *w, FILE *f, at_splines_type *s, char *name, at_output_opts_type *o, Msgs &m) {
  at_splines_write(w, f, name, o, s, msg_cb, &m);
}
MODE(streams) {
  Rng &r = c.rng;
  const char *suffix = WRITERS[c.idx % NWRITERS];
  at_splines_type *s = nullptr;
  if (r.p(0.25)) s = traced_splines(r, 40);
  if (!s) {
    SplineGen g;
    g.maxdim = 200; g.maxcolors = r.p(0.1) ? 300 : 12; g.maxlists = g.maxcolors > 12 ? 320 : 14; g.maxsplines = 14;
    s = gen_splines(r, g);
  }
  at_output_opts_type *o = r.p(0.7) ? at_output_opts_new() : nullptr;
  if (o && r.p(0.5)) o->dpi = r.range(1, 1200);
  std::vector<char> name = gen_name(r);
  at_spline_writer *w = writer(suffix);
  if (!w) harness_error("no writer %s", suffix);
  // the reference: an ordinary file
  const char *path = scratch_path("ref.out");
  Msgs m0;
  FILE *f = fopen(path, "wb");
  if (!f) harness_error("cannot open %s", path);
  write_to(w, f, s, name.data(), o, m0);
  bool open_after = fcntl(fileno(f), F_GETFD) >= 0 && !ferror(f);
  if (!open_after) report("stream-damaged", "%s: the stream is %s after writing", suffix, ferror(f) ? "in error" : "closed");
  fclose(f);
  Bytes ref;
  read_file(path, ref);
  auto compare = [&](const Bytes &got, size_t from, size_t to, const Msgs &m, const char *what) {
    count(what);
    if (m.total() != m0.total() || strcmp(m.first, m0.first)) report("messages-differ", "%s: %s gives other messages than a file: \"%s\" and \"%s\"", suffix, what, m.first, m0.first);
    if (got.size() < from || to < from || to - from != ref.size()) { report("sizes-differ", "%s: %zu bytes in a file, %zd to %s", suffix, ref.size(), (ssize_t)(to - from), what); return; }
    for (size_t i = 0; i < ref.size(); i++) if (got[from + i] != ref[i]) { report("bytes-differ", "%s: byte %zu of %zu is %02x in a file, %02x to %s", suffix, i, ref.size(), ref[i], got[from + i], what); return; }
  };
  if (!reported_any()) {   // not seekable, any buffering
    Sink k;
    Msgs m;
    f = fopencookie(&k, "wb", cookie_io_functions_t{nullptr, sink_write, nullptr, nullptr});
    int how = (int)r.u(3);
    std::vector<char> buf((size_t)r.range(1, 5000));
    if (how == 0) setvbuf(f, nullptr, _IONBF, 0);
    else if (how == 1) setvbuf(f, buf.data(), _IOLBF, buf.size());
    else setvbuf(f, buf.data(), _IOFBF, buf.size());
    write_to(w, f, s, name.data(), o, m);
    fclose(f);
    compare(k.got, 0, k.got.size(), m, how == 0 ? "unbuffered_streams" : how == 1 ? "line_buffered_streams" : "small_buffers");
  }
  if (!reported_any() && ref.size() < 60000) {
    int fd[2];
    if (pipe(fd)) harness_error("pipe: %s", strerror(errno));
    Msgs m;
    f = fdopen(fd[1], "wb");
    write_to(w, f, s, name.data(), o, m);
    fclose(f);
    Bytes got;
    unsigned char t[4096];
    ssize_t n;
    while ((n = read(fd[0], t, sizeof t)) > 0) got.insert(got.end(), t, t + n);
    close(fd[0]);
    compare(got, 0, got.size(), m, "pipes");
  }
  if (!reported_any()) {   // between other bytes: what was there stays, what follows comes after
    const char *p2 = scratch_path("mid.out");
    size_t before = r.p(0.2) ? 0 : (size_t)r.u(r.p(0.5) ? 20 : 6000), after = (size_t)r.u(50), old = r.p(0.4) ? before + ref.size() + r.u(300) : 0;
    Bytes head(before), tail(after);
    for (auto &x : head) x = (unsigned char)r.next();
    for (auto &x : tail) x = (unsigned char)r.next();
    Msgs m;
    int how = (int)r.u(3);                          // a new file, over old contents, appending
    Bytes oldc(old, 0xAA);
    if (how == 1) write_file(p2, oldc.data(), old);
    if (how == 2) write_file(p2, head.data(), before);
    f = fopen(p2, how == 0 ? "wb" : how == 1 ? "r+b" : "ab");
    if (!f) harness_error("cannot open %s", p2);
    if (how != 2 && before) fwrite(head.data(), 1, before, f);
    write_to(w, f, s, name.data(), o, m);
    long pos = ftell(f);
    if (after) fwrite(tail.data(), 1, after, f);
    fclose(f);
    Bytes got;
    read_file(p2, got);
    if (pos != (long)(before + ref.size())) report("position-differs", "%s: written at %zu, the stream is at %ld after %zu bytes", suffix, before, pos, ref.size());
    if (got.size() < before || differ(got.data(), head.data(), before)) report("earlier-bytes-changed", "%s: bytes written to the stream before are changed", suffix);
    if (!reported_any()) compare(got, before, before + ref.size() <= got.size() ? before + ref.size() : got.size(), m, how == 0 ? "after_other_bytes" : how == 1 ? "over_old_contents" : "appended");
    if (!reported_any() && (got.size() < before + ref.size() + after || differ(got.data() + before + ref.size(), tail.data(), after))) report("later-bytes-differ", "%s: what is written to the stream afterwards does not follow the drawing", suffix);
    size_t total = before + ref.size() + after;
    if (!reported_any() && got.size() != (how == 1 ? std::max(total, old) : total)) report("sizes-differ", "%s: %zu bytes in all, expected %zu", suffix, got.size(), total);
  }
  use_hash(hash_bytes(ref.data(), ref.size()));
  use_hash(hash_bytes(suffix, strlen(suffix)));
  c.nontrivial = !ref.empty();
  if (c.nontrivial) sample("%s, %u lists, %zu bytes: the same to every stream", suffix, s->length, ref.size());
  splines_deep_free(s);
  if (o) at_output_opts_free(o);
}

// ---- options of stages that are off ----
static void inactive_read(Ctx &c) {
  Rng &r = c.rng;
  int fmt = (int)r.u((uint32_t)NENC);
#if VARIANT_msan
  if (fmt == 3) fmt = (int)r.u(3);
#endif
  Encoded e = gen_encoded(r, fmt, 24);
  bool gf = !strcmp(e.suffix, "gf"), png = !strcmp(e.suffix, "png");
  if (r.p(0.3)) e.data.resize(e.body + r.u((uint32_t)(e.data.size() - e.body) + 1));
  const char *path = scratch_path("in.img");
  write_file(path, e.data.data(), e.data.size());
  at_bitmap *b[2];
  Msgs m[2];
  RGB bg{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
  unsigned code = r.u(300);
  for (int k = 0; k < 2; k++) {
    at_input_opts_type *o = at_input_opts_new();
    unpoison(o, sizeof *o);
    o->charcode = gf ? (unsigned)e.charcode : k ? code : 0;
    if (k && !png) o->background_color = at_color_new(bg.r, bg.g, bg.b);
    char name[700];
    snprintf(name, sizeof name, "%s", path);
    b[k] = at_bitmap_read(reader(e.suffix), name, o, msg_cb, &m[k]);
    at_input_opts_free(o);
  }
  if (!b[0] || !b[1]) report("no-bitmap", "%s: reading returned no bitmap", e.variant);
  else {
    if (!same_pixels(b[0], b[1])) report("reading-depends", "%s: the %s changes the pixels read", e.variant, gf ? "background colour" : png ? "character code" : "character code or the background colour");
    if (m[0].total() != m[1].total() || strcmp(m[0].first, m[1].first)) report("messages-depend", "%s: \"%s\" and \"%s\"", e.variant, m[0].first, m[1].first);
    c.nontrivial = b[0]->width && b[0]->height;
  }
  use_hash(hash_bytes(e.data.data(), e.data.size()));
  count("reads");
  if (c.nontrivial) sample("read %s: the same pixels whatever the options of other formats", e.variant);
  for (auto x : b) if (x) at_bitmap_free(x);
}
static void inactive_write(Ctx &c) {
  Rng &r = c.rng;
  const char *suffix = WRITERS[r.u((uint32_t)NWRITERS)];
  SplineGen g;
  g.maxdim = 200; g.maxcolors = 12; g.maxlists = 14; g.maxsplines = 14;
  at_splines_type *s = gen_splines(r, g), *t = splines_deep_copy(s);
  at_output_opts_type *o = at_output_opts_new(), *p = at_output_opts_copy(o);
  char what[200] = "";
  auto add = [&](const char *x) { if (*what) strncat(what, ", ", sizeof what - strlen(what) - 1); strncat(what, x, sizeof what - strlen(what) - 1); };
  bool scaled = !strcmp(suffix, "mif") || !strcmp(suffix, "dr2d");
  if (!scaled) { p->dpi = r.range(1, 1200); add("resolution"); }
  if (r.p(0.7) && !(s->preserve_width && s->centerline)) {
    t->width_weight_factor = (float)r.frange(0.1, 20);
    add("width factor");
    if (!s->centerline) { t->preserve_width = !s->preserve_width; add("preserved width"); }
  }
  std::vector<char> name = gen_name(r);
  const char *path = scratch_path("out");
  Bytes out[2];
  Msgs m[2];
  for (int k = 0; k < 2; k++) {
    FILE *f = fopen(path, "wb");
    if (!f) harness_error("cannot open %s", path);
    at_splines_write(writer(suffix), f, name.data(), k ? p : scaled ? nullptr : o, k ? t : s, msg_cb, &m[k]);
    fclose(f);
    read_file(path, out[k]);
  }
  if (scaled) add("missing or default options");
  if (out[0] != out[1]) report("writing-depends", "%s: other bytes (%zu, %zu) with another %s", suffix, out[0].size(), out[1].size(), what);
  use_hash(hash_bytes(out[0].data(), out[0].size()));
  count("writes");
  c.nontrivial = *what && !out[0].empty();
  if (c.nontrivial) sample("write %s, %zu bytes: the same with another %s", suffix, out[0].size(), what);
  splines_deep_free(s); splines_deep_free(t);
  at_output_opts_free(o); at_output_opts_free(p);
}
MODE(inactive) {
  Rng &r = c.rng;
  if (c.idx % 8 == 0) { inactive_read(c); return; }
  if (c.idx % 8 == 1) { inactive_write(c); return; }
  Img im = any_image(r);
  at_fitting_opts_type *o = gen_opts(r, im);
  char what[200] = "";
  at_fitting_opts_type *p = at_fitting_opts_copy(o);
  auto add = [&](const char *t) { if (*what) strncat(what, ", ", sizeof what - strlen(what) - 1); strncat(what, t, sizeof what - strlen(what) - 1); };
  if (r.p(0.6)) { o->despeckle_level = p->despeckle_level = 0; p->despeckle_tightness = (float)r.frange(0.1, 8); p->noise_removal = (float)r.frange(0, 0.999); add("tightness and noise removal without despeckling"); }
  if (r.p(0.6)) { if (r.p(0.7)) o->preserve_width = p->preserve_width = false; else o->centerline = p->centerline = false; p->width_weight_factor = (float)r.frange(0.1, 20); add("width factor without widths"); }
  if (!o->centerline) { p->preserve_width = !o->preserve_width; add("preserved widths without centerline"); }
  if (r.p(0.5) || !*what) { p->charcode = (unsigned)r.u(256); add("character code"); }
  bool absent = !o->centerline && r.p(0.4);           // background colours that no pixel has
  if (absent) {
    o->color_count = p->color_count = 0;
    std::vector<uint32_t> have;
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) { RGB v = im.at(x, y); have.push_back((uint32_t)v.r << 16 | (uint32_t)v.g << 8 | v.b); }
    std::sort(have.begin(), have.end());
    have.erase(std::unique(have.begin(), have.end()), have.end());
    bool first = r.p(0.5);
    for (auto x : {o, p}) {
      if (x->background_color) at_color_free(x->background_color);
      x->background_color = nullptr;
      if (x == o && first) continue;
      uint32_t v;
      do {
        if (!have.empty() && r.p(0.5)) v = have[r.u((uint32_t)have.size())] ^ 1u << r.u(24);     // near a colour of the image
        else v = (uint32_t)r.next() & 0xffffff;
      } while (std::binary_search(have.begin(), have.end(), v));
      x->background_color = at_color_new((unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v);
    }
    add("background colour that does not occur");
  }
  print_opts(o);
  print_opts(p);
  print_img(im, im.colors());
  Msgs m, n;
  at_bitmap *b = to_bitmap(im), *q = to_bitmap(im);
  at_splines_type *s = trace(b, o, m), *t = trace(q, p, n);
  char why[300];
  if (!s || !t) report("no-splines", "tracing %dx%d returned no splines: %s %s", im.w, im.h, m.first, n.first);
  else {
    if (absent) {
      if (t->background_color) at_color_free(t->background_color);
      t->background_color = s->background_color ? at_color_copy(s->background_color) : nullptr;
      count("absent_background");
    }
    t->preserve_width = s->preserve_width;
    t->width_weight_factor = s->width_weight_factor;
    if (!same_pixels(b, q)) report("pixels-depend", "%s: leaves other pixels", what);
    else if (!splines_same(s, t, true, why, sizeof why)) report("splines-depend", "%s: gives other splines: %s", what, why);
  }
  count("despeckling_off", o->despeckle_level == 0);
  count("outline_mode", !o->centerline);
  use_hash(im.hash()); use_hash(hash_opts(o)); use_hash(hash_opts(p));
  c.nontrivial = s && s->length;
  if (c.nontrivial) sample("%dx%dx%d: %u lists whatever the %s", im.w, im.h, im.np, s->length, what);
  if (s) at_splines_free(s);
  if (t) at_splines_free(t);
  at_bitmap_free(b); at_bitmap_free(q);
  at_fitting_opts_free(o); at_fitting_opts_free(p);
}

// ---- C38: where outlines are divided ----
static bool same_point(const at_real_coord &a, const at_real_coord &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool same_lists(const at_splines_type *a, const at_splines_type *b, const char *key, const char *what) {
  if (a->length != b->length) { report(key, "%s: %u lists instead of %u", what, b->length, a->length); return false; }
  for (unsigned i = 0; i < a->length; i++) {
    const at_spline_list_type &p = a->data[i], &q = b->data[i];
    if (p.clockwise != q.clockwise || p.open != q.open || p.color.r != q.color.r || p.color.g != q.color.g || p.color.b != q.color.b) { report(key, "%s: list %u has another colour or direction", what, i); return false; }
  }
  return true;
}
// -a every end of a piece of the coarse list is one of the fine list, in the same order
static void refines(const at_spline_list_type &coarse, const at_spline_list_type &fine, unsigned n, float e2, float e1, long &divided, long &kept) {
  if (!same_point(coarse.data[0].v[0], fine.data[0].v[0])) { report("start-moved", "list %u starts at %g %g with error %g, at %g %g with %g", n, coarse.data[0].v[0].x, coarse.data[0].v[0].y, e2, fine.data[0].v[0].x, fine.data[0].v[0].y, e1); return; }
  unsigned j = 0;
  for (unsigned i = 0; i < coarse.length; i++) {
    unsigned first = j;
    while (j < fine.length && (!same_point(coarse.data[i].v[3], fine.data[j].v[3]) || (i + 1 == coarse.length && j + 1 < fine.length))) j++;      // the last ends last
    if (j >= fine.length) {
      report("not-a-division", "list %u, piece %u ends at %g %g with an error threshold of %g, where no piece ends in order with %g (%u and %u pieces)", n, i, coarse.data[i].v[3].x, coarse.data[i].v[3].y, e2, e1, coarse.length, fine.length);
      return;
    }
    if (j > first) divided++;
    else {
      kept++;
      const at_spline_type &p = coarse.data[i], &q = fine.data[j];
      if (p.degree == AT_CUBICTYPE && q.degree == AT_CUBICTYPE && (!same_point(p.v[1], q.v[1]) || !same_point(p.v[2], q.v[2]))) {
        // the same point twice on the outline: not the same piece
        bool twice = false;
        for (unsigned k = 0; k < fine.length && !twice; k++) twice = k != j && same_point(fine.data[k].v[3], q.v[3]);
        if (!twice) { report("undivided-piece-changed", "list %u, piece %u is not divided further with an error threshold of %g instead of %g but has other control points", n, i, e1, e2); return; }
      }
    }
    j++;
  }
}
MODE(divide) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 90 : 40;
  g.maxcolors = 6;
  Img im = r.p(0.3) ? gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255}) : gen_image(r, g);
  at_fitting_opts_type *o = gen_opts(r, im);
  float es[4] = {(float)r.frange(0.05, 1), (float)r.frange(0.5, 3), (float)r.frange(1, 12), 1e9f};
  std::sort(es, es + 4);
  print_opts(o);
  print_img(im, im.colors());
  Msgs m;
  at_splines_type *s[4];
  for (int k = 0; k < 4; k++) {
    at_bitmap *b = to_bitmap(im);
    o->error_threshold = es[k];
    s[k] = trace(b, o, m);
    at_bitmap_free(b);
    if (!s[k]) report("no-splines", "tracing %dx%d returned no splines: %s", im.w, im.h, m.first);
  }
  long divided = 0, kept = 0, corners = 0;
  bool whole = !m.total();            // pieces that cannot be fitted are announced and left out
  for (int k = 0; k + 1 < 4 && !reported_any() && whole; k++) {
    if (!same_lists(s[k + 1], s[k], "lists-differ", "error thresholds")) break;
    for (unsigned i = 0; i < s[k]->length && !reported_any(); i++) if (s[k]->data[i].length && s[k + 1]->data[i].length) refines(s[k + 1]->data[i], s[k]->data[i], i, es[k + 1], es[k], divided, kept);
  }
  // corners stay where they are
  if (!reported_any() && whole) {
    at_splines_type *t;
    at_bitmap *b = to_bitmap(im);
    unsigned fi = o->filter_iterations, ts = o->tangent_surround;
    o->error_threshold = 1e9f;
    o->filter_iterations = r.p(0.5) ? 0 : (unsigned)r.range(1, 6);
    o->tangent_surround = (unsigned)r.range(1, 8);
    if (r.p(0.5)) o->line_threshold = (float)r.frange(0, 3);
    if (r.p(0.5)) o->line_reversion_threshold = (float)r.frange(0, 1);
    t = trace(b, o, m);
    at_bitmap_free(b);
    if (!t) report("no-splines", "tracing %dx%d returned no splines: %s", im.w, im.h, m.first);
    else if (!m.total() && same_lists(s[3], t, "lists-differ", "smoothing"))
      for (unsigned i = 0; i < t->length && !reported_any(); i++) {
        const at_spline_list_type &p = s[3]->data[i], &q = t->data[i];
        if (p.length == 2 && q.length == 2 && !p.open) continue;      // may be an outline without corners, divided once
        if (p.length != q.length) { report("corners-differ", "list %u has %u pieces between corners with %u smoothing passes and a tangent distance of %u, %u with %u and %u", i, p.length, fi, ts, q.length, o->filter_iterations, o->tangent_surround); break; }
        for (unsigned k = 0; k < p.length; k++)
          if (!same_point(p.data[k].v[0], q.data[k].v[0]) || !same_point(p.data[k].v[3], q.data[k].v[3])) { report("corners-moved", "list %u, piece %u: ends moved from %g %g, %g %g to %g %g, %g %g by other smoothing or tangents", i, k, p.data[k].v[0].x, p.data[k].v[0].y, p.data[k].v[3].x, p.data[k].v[3].y, q.data[k].v[0].x, q.data[k].v[0].y, q.data[k].v[3].x, q.data[k].v[3].y); break; }
        corners += p.length;
      }
    if (t) at_splines_free(t);
  }
  count("pieces_divided", (double)divided);
  count("pieces_kept", (double)kept);
  count("corners", (double)corners);
  if (!whole) count("with_messages");
  use_hash(im.hash()); use_hash(hash_opts(o));
  for (float e : es) use_hash((uint64_t)(e * 1000));
  c.nontrivial = divided > 0;
  if (c.nontrivial) sample("%dx%dx%d%s, %u lists: %ld pieces divided further, %ld kept, %ld corners", im.w, im.h, im.np, o->centerline ? ", centerline" : "", s[3]->length, divided, kept, corners);
  for (auto x : s) if (x) at_splines_free(x);
  at_fitting_opts_free(o);
}

// ---- C39: corners beside one another ----
MODE(adjacent) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 70 : 30;
  g.maxcolors = 4;
  Img im = gen_image(r, g);
  for (int k = r.range(0, 6); k-- && im.w > 4 && im.h > 4;) {      // thin spikes end in two corners
    int x = (int)r.u((uint32_t)im.w), y = (int)r.u((uint32_t)im.h), n = r.range(3, 14), d = (int)r.u(2);
    RGB q = im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h));
    for (int i = 0; i < n; i++) { int u = d ? x + i : x, v = d ? y : y + i; if (u < im.w && v < im.h) im.set(u, v, q); }
  }
  at_fitting_opts_type *o = gen_opts(r, im);
  o->centerline = false;
  o->color_count = 0;
  o->despeckle_level = 0;
  o->error_threshold = 1e9f;                          // pieces lead from corner to corner
  if (r.p(0.5)) o->corner_always_threshold = (float)r.frange(60, 150);
  if (r.p(0.5)) o->corner_threshold = (float)r.frange(90, 170);
  bool bar = r.p(0.1);                                // corners beside one another for certain
  if (bar) {
    o->corner_surround = (unsigned)r.range(2, 8);
    o->corner_threshold = (float)r.frange(100, 150);
    int n = 2 * (int)o->corner_surround + r.range(4, 20);
    bool flat = r.p(0.5);
    im = Img(flat ? n + 6 : 7, flat ? 7 : n + 6, 1);
    std::fill(im.px.begin(), im.px.end(), 255);
    for (int i = 0; i < n; i++) im.set(flat ? 3 + i : 3, flat ? 3 : 3 + i, RGB{0, 0, 0});
    if (o->background_color) at_color_free(o->background_color);
    o->background_color = at_color_new(255, 255, 255);
  }
  print_opts(o);
  print_img(im, im.colors());
  Msgs m;
  at_splines_type *s[2];
  for (int k = 0; k < 2; k++) {
    at_bitmap *b = to_bitmap(im);
    o->remove_adjacent_corners = k;
    s[k] = trace(b, o, m);
    at_bitmap_free(b);
    if (!s[k]) report("no-splines", "tracing %dx%d returned no splines: %s", im.w, im.h, m.first);
  }
  long judged = 0, removed = 0, beside = 0;
  auto inside = [&](double x, double y, const at_color &q) {
    int u = (int)floor(x), v = im.h - 1 - (int)floor(y);
    if (u < 0 || v < 0 || u >= im.w || v >= im.h) return false;
    RGB p = im.at(u, v);
    return p.r == q.r && p.g == q.g && p.b == q.b;
  };
  // an outline passes twice where its region touches itself at a corner
  auto touches = [&](const at_real_coord &p, const at_color &q) {
    bool a = inside(p.x - 0.5, p.y - 0.5, q), b = inside(p.x + 0.5, p.y - 0.5, q), d = inside(p.x - 0.5, p.y + 0.5, q), e = inside(p.x + 0.5, p.y + 0.5, q);
    return a == e && b == d && a != b;
  };
  // -a whether the outline leads straight from the start of the piece to its end, the next point
  auto next = [&](const at_spline_type &p, const at_color &q, bool unsure) {
    double dx = p.v[3].x - p.v[0].x, dy = p.v[3].y - p.v[0].y;
    if (fabs(dx) + fabs(dy) != 1) return false;
    if (touches(p.v[0], q) || touches(p.v[3], q)) return unsure;
    double x = (p.v[0].x + p.v[3].x) / 2, y = (p.v[0].y + p.v[3].y) / 2;
    return inside(x - dy / 2, y + dx / 2, q) && !inside(x + dy / 2, y - dx / 2, q);
  };
  if (bar && !reported_any()) {
    count("bars");
    if (s[0]->length != 1 || s[1]->length != 1) report("bar-lists", "a straight stroke has %u and %u lists", s[0]->length, s[1]->length);
    else if (s[0]->data[0].length <= s[1]->data[0].length) report("no-corner-removed", "a stroke one pixel wide has %u corners, %u if adjacent ones are removed", s[0]->data[0].length, s[1]->data[0].length);
  }
  if (!reported_any() && !m.total() && same_lists(s[0], s[1], "lists-differ", "adjacent corners"))
    for (unsigned i = 0; i < s[0]->length && !reported_any(); i++) {
      const at_spline_list_type &a = s[0]->data[i], &b = s[1]->data[i];
      if (a.length <= 2 || b.length <= 2) continue;       // perhaps no corners: divided once
      judged++;
      if (!same_point(a.data[0].v[0], b.data[0].v[0])) { report("first-corner", "list %u starts at another corner if adjacent ones are removed", i); break; }
      unsigned j = 0;
      for (unsigned k = 0; k < b.length && !reported_any(); k++) {
        while (j < a.length && (!same_point(a.data[j].v[3], b.data[k].v[3]) || (k + 1 == b.length && j + 1 < a.length))) j++;
        if (j >= a.length && k + 2 == b.length) break;     // the last corner beside another is always left out
        if (j >= a.length) report("corner-added", "list %u has a corner at %g %g only if adjacent ones are removed", i, b.data[k].v[3].x, b.data[k].v[3].y);
        j++;
      }
      for (unsigned k = 0; k + 1 < a.length; k++) beside += next(a.data[k], a.color, false);
      for (unsigned k = 0; k + 1 < b.length && !reported_any(); k++)
        if (next(b.data[k], b.color, false)) report("corners-left", "list %u still has corners at the neighbouring points %g %g and %g %g", i, b.data[k].v[0].x, b.data[k].v[0].y, b.data[k].v[3].x, b.data[k].v[3].y);
      // a corner is removed because of one beside it
      for (unsigned k = 0; k + 1 < a.length && !reported_any(); k++) {
        const at_real_coord &p = a.data[k].v[3];
        bool kept = false, near = next(a.data[k], a.color, true) || next(a.data[k + 1], a.color, true);
        for (unsigned l = 0; l < b.length && !kept; l++) kept = same_point(b.data[l].v[3], p);
        if (!kept) removed++;
        if (!kept && !near) report("corner-lost", "list %u: the corner at %g %g has no neighbour but is removed", i, p.x, p.y);
      }
    }
  count("lists_judged", (double)judged);
  count("adjacent_pairs", (double)beside);
  count("corners_removed", (double)removed);
  if (m.total()) count("with_messages");
  use_hash(im.hash()); use_hash(hash_opts(o));
  c.nontrivial = removed > 0;
  if (c.nontrivial) sample("%dx%dx%d: %ld lists, %ld neighbouring pairs of corners, %ld corners removed", im.w, im.h, im.np, judged, beside, removed);
  for (auto x : s) if (x) at_splines_free(x);
  at_fitting_opts_free(o);
}

// Generated spline sets and the mode that writes them: write (C16).
#include "geom.hpp"

// ---- generated spline sets that satisfy what tracing guarantees ----
static float coord(Rng &r, int n, bool ends) {
  double v;
  switch (r.u(8)) {
    case 0: v = r.p(0.5) ? 0 : n; break;                     // on the frame
    case 1: v = r.range(0, n); break;                        // whole numbers
    case 2: v = r.range(0, n) + (r.p(0.5) ? 0.5 : r.frange(0.499, 0.501)); break;
    case 3: v = ends ? r.frange(0, n) : r.frange(-0.4 * n - 2, 1.4 * n + 2); break;
    default: v = r.frange(0, n);
  }
  if (ends) v = v < 0 ? 0 : v > n ? n : v;
  return (float)v;
}
at_splines_type *gen_splines(Rng &r, const SplineGen &g) {
  at_splines_type *s = (at_splines_type *)calloc(1, sizeof *s);
  int dim = r.p(0.1) ? 3 : r.p(0.7) ? 60 : g.maxdim;
  s->width = (unsigned short)r.range(1, dim);
  s->height = (unsigned short)r.range(1, dim);
  s->centerline = g.centerline >= 0 ? g.centerline : r.p(0.4);
  s->preserve_width = s->centerline && r.p(0.3);
  s->width_weight_factor = r.p(0.5) ? 6.0f : (float)r.frange(0, 12);
  int nc = r.p(0.15) ? r.range(1, g.maxcolors) : r.range(1, 5);
  std::vector<RGB> pal = gen_palette(r, nc, r.p(0.3) ? 1 : 3);
  if (r.p(0.3)) pal[r.u((uint32_t)pal.size())] = RGB{0, 0, 0};
  if (r.p(0.2)) pal[r.u((uint32_t)pal.size())] = RGB{255, 255, 255};
  if (r.p(0.4)) {
    RGB bg = r.p(0.6) ? RGB{255, 255, 255} : RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
    s->background_color = new_color(bg);
  }
  int nl = r.p(0.06) ? 0 : r.p(0.1) ? r.range(1, g.maxlists) : r.range(1, 8);
  if (nc > 20) nl = std::max(nl, std::min(nc + r.range(0, 8), g.maxlists));
  s->length = (unsigned)nl;
  s->data = nl ? (at_spline_list_type *)calloc((size_t)nl, sizeof *s->data) : nullptr;
  RGB cur = pal[0];
  for (int i = 0; i < nl; i++) {
    at_spline_list_type &l = s->data[i];
    if (nc > 20) cur = pal[(size_t)i % pal.size()];
    else if (i == 0 || r.p(0.6)) cur = pal[r.u((uint32_t)pal.size())];
    l.color = at_color{cur.r, cur.g, cur.b};
    l.open = s->centerline && r.p(0.7);
    l.clockwise = !s->centerline && s->background_color && r.p(0.3);
    int n = r.p(0.3) ? 1 : r.p(0.9) ? r.range(1, 8) : r.range(1, g.maxsplines);
    if (!l.open && n == 1 && r.p(0.7)) n = 3;
    l.length = (unsigned)n;
    l.data = (at_spline_type *)calloc((size_t)n, sizeof *l.data);
    at_real_coord start;
    start.x = coord(r, s->width, true); start.y = coord(r, s->height, true);
    start.z = s->preserve_width ? (float)r.frange(0, 20) : 0;
    at_real_coord at = start;
    double straight = r.p(0.3) ? 1 : r.p(0.3) ? 0 : 0.5;
    for (int j = 0; j < n; j++) {
      at_spline_type &p = l.data[j];
      at_real_coord to;
      to.x = coord(r, s->width, true); to.y = coord(r, s->height, true);
      to.z = s->preserve_width ? (float)r.frange(0, 20) : 0;
      if (r.p(0.05)) { to.x = at.x; if (r.p(0.3)) to.y = at.y; }      // vertical or without extent
      if (j == n - 1 && !l.open) to = start;
      p.v[0] = at; p.v[3] = to;
      if (r.p(straight)) {
        p.degree = AT_LINEARTYPE;
        p.v[1] = at; p.v[2] = to;
        if (r.p(0.2)) for (int k = 1; k < 3; k++) { p.v[k].x = coord(r, s->width, false); p.v[k].y = coord(r, s->height, false); }   // lines made from curves keep the controls
        p.linearity = 0;
      } else {
        p.degree = AT_CUBICTYPE;
        for (int k = 1; k < 3; k++) {
          if (r.p(0.5)) { p.v[k].x = (float)(at.x + (to.x - at.x) * k / 3.0 + r.frange(-3, 3)); p.v[k].y = (float)(at.y + (to.y - at.y) * k / 3.0 + r.frange(-3, 3)); }
          else { p.v[k].x = coord(r, s->width, false); p.v[k].y = coord(r, s->height, false); }
          p.v[k].z = s->preserve_width ? (float)r.frange(0, 20) : 0;
        }
        p.linearity = (float)r.frange(0, 2);
      }
      at = to;
    }
  }
  return s;
}
// A traced bitmap instead of generated splines.
at_splines_type *traced_splines(Rng &r, int maxdim) {
  GenOpt g;
  g.maxdim = maxdim;
  g.maxcolors = r.p(0.2) ? 20 : 5;
  Img im = r.p(0.4) ? gen_strokes(r, g, true, RGB{255, 255, 255}) : gen_image(r, g);
  at_fitting_opts_type *o = gen_opts(r, im);
  o->color_count = 0;
  o->despeckle_level = 0;
  at_bitmap *b = to_bitmap(im);
  at_splines_type *s = at_splines_new(b, o, nullptr, nullptr);
  at_splines_type *d = s ? splines_deep_copy(s) : nullptr;
  if (s) at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
  return d;
}
std::vector<char> gen_name(Rng &r) {
  std::vector<char> n;
  int len = r.p(0.05) ? r.range(200, 5000) : r.p(0.1) ? r.range(0, 1) : r.range(1, 30);
  for (int i = 0; i < len; i++) n.push_back(r.p(0.9) ? (char)r.range('a', 'z') : r.p(0.5) ? "%./ -_()\\\"'&<>"[r.u(14)] : (char)r.range(1, 255));
  if (r.p(0.1)) { const char *t = "%s%n%d"; n.insert(n.end(), t, t + strlen(t)); }
  n.push_back(0);
  return n;
}
static void print_splines(const at_splines_type *s) {
  if (!g_ctx->verbose) return;
  say("splines %ux%u centerline %d preserve %d bg %d lists %u\n", s->width, s->height, s->centerline, s->preserve_width, s->background_color != nullptr, s->length);
  for (unsigned i = 0; i < s->length && i < 40; i++) {
    const at_spline_list_type &l = s->data[i];
    say(" list %u colour %02x%02x%02x clockwise %d open %d: %u splines\n", i, l.color.r, l.color.g, l.color.b, l.clockwise, l.open, l.length);
    for (unsigned j = 0; j < l.length && j < 20; j++) {
      const at_spline_type &p = l.data[j];
      say("  deg %d (%g,%g) (%g,%g) (%g,%g) (%g,%g)\n", p.degree, p.v[0].x, p.v[0].y, p.v[1].x, p.v[1].y, p.v[2].x, p.v[2].y, p.v[3].x, p.v[3].y);
    }
  }
}

// ---- C16 ----
MODE(write) {
  Rng &r = c.rng;
  const char *suffix = *c.arg ? c.arg : WRITERS[c.idx % NWRITERS];
  SplineGen g;
  if (r.p(0.1)) { g.maxdim = 65535; g.maxcolors = 8; g.maxlists = 12; g.maxsplines = 12; }   // few: some writers emit a point per pixel
  else { g.maxdim = r.p(0.3) ? 3000 : 300; g.maxcolors = 700; g.maxlists = 900; g.maxsplines = r.p(0.05) ? 400 : 40; }
  bool traced = r.p(0.25);
  at_splines_type *s = traced ? traced_splines(r, 40) : gen_splines(r, g);
  if (!s) return;
  at_spline_writer *w = writer(suffix);
  if (!w) { splines_deep_free(s); return; }
  at_output_opts_type *o = at_output_opts_new();
  unpoison(o, sizeof *o);
  if (r.p(0.5)) o->dpi = r.p(0.8) ? r.range(1, 1200) : r.range(1, 2000000000);
  std::vector<char> name = gen_name(r);
  say("%s dpi %d name %zu\n", suffix, o->dpi, name.size());
  print_splines(s);
  const char *path = scratch_path("out");
  FILE *f = fopen(path, "wb");
  if (!f) harness_error("cannot create %s", path);
  Msgs m;
  at_splines_write(w, f, name.data(), o, s, msg_cb, &m);
  if (ferror(f)) report("stream-error", "%s: the stream has an error after writing", suffix);
  fclose(f);
  Bytes out;
  read_file(path, out);
  if (out.empty() && s->length && !m.fatal && !m.warning) report("nothing-written", "%s wrote nothing and gave no message", suffix);
  char key[40];
  snprintf(key, sizeof key, "%s_%s", suffix, m.fatal ? "refused" : "written");
  count(key);
  count("bytes", (double)out.size());
  count("lists", s->length);
  c.nontrivial = !out.empty() && s->length;
  use_hash(hash_bytes(suffix, strlen(suffix)));
  use_hash(hash_splines(s));
  if (c.nontrivial) sample("%s: %s %ux%u%s, %u lists -> %zu bytes%s%s", suffix, traced ? "traced" : "generated", s->width, s->height, s->centerline ? " centerline" : "", s->length, out.size(), m.first[0] ? ", message: " : "", m.first);
  at_output_opts_free(o);
  splines_deep_free(s);
}

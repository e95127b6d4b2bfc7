// Modes that look at the splines a trace returns: shape (C05), paint (C06), bound (C07),
// center (C08), recolor (C24), widths (C26).
#include "geom.hpp"

static at_splines_type *trace(at_bitmap *b, at_fitting_opts_type *o, Msgs *m) {
  return at_splines_new_full(b, o, msg_cb, m, nullptr, nullptr, nullptr, nullptr);
}
static RGB grey_of(RGB c, int np) { return np == 1 ? RGB{c.r, c.r, c.r} : c; }
static bool has(const std::vector<RGB> &v, RGB c) { return std::find(v.begin(), v.end(), c) != v.end(); }

// ---- C05: structure of the result ----
MODE(shape) {
  GenOpt g;
  g.maxdim = c.rng.p(0.15) ? 90 : 36;
  g.maxcolors = c.rng.p(0.1) ? 40 : 6;
  Img im = c.rng.p(0.25) ? gen_strokes(c.rng, g, false, RGB{0, 0, 0}) : gen_image(c.rng, g);
  at_fitting_opts_type *o = gen_opts(c.rng, im);
  if (o->background_color && im.np == 1) { RGB k = grey_of(rgb(*o->background_color), 1); o->background_color->g = k.g; o->background_color->b = k.b; }
  print_opts(o);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (!s) { report("no-splines", "tracing a %dx%d bitmap returned no splines: %s", im.w, im.h, m.first); at_bitmap_free(b); at_fitting_opts_free(o); return; }
  if (s->width != im.w || s->height != im.h) report("frame", "frame %ux%u for a %dx%d bitmap", s->width, s->height, im.w, im.h);
  if (b->width != im.w || b->height != im.h || (int)b->np != im.np) report("bitmap-size", "the processed bitmap changed its size");
  if (s->centerline != o->centerline) report("centerline-flag", "centerline flag is %d, option %d", s->centerline, o->centerline);
  if (s->preserve_width != o->preserve_width) report("preserve-width-flag", "preserve_width is %d, option %d", s->preserve_width, o->preserve_width);
  if (s->width_weight_factor != o->width_weight_factor) report("weight-factor", "width_weight_factor is %g, option %g", s->width_weight_factor, o->width_weight_factor);
  if (!s->background_color != !o->background_color || (s->background_color && rgb(*s->background_color) != rgb(*o->background_color)))
    report("background", "background colour of the result is not the one of the options");
  Img after = from_bitmap(b);
  auto cols = after.colors();
  print_img(after, cols);
  double M = std::max(im.w, im.h), slack = M + 10 * o->error_threshold + 10;
  for (unsigned i = 0; i < s->length && !reported_any(); i++) {
    const at_spline_list_type &l = s->data[i];
    if (!l.length || !l.data) { report("empty-list", "list %u has no splines", i); break; }
    if (!has(cols, rgb(l.color))) report("foreign-colour", "list %u has colour %06x which is not in the processed bitmap", i, rgb(l.color).code());
    if (o->background_color && rgb(l.color) == rgb(*o->background_color)) report("background-list", "list %u has the background colour", i);
    if (!o->centerline && l.open) report("open-outline", "list %u of an outline trace is open", i);
    if (o->centerline && l.clockwise) report("clockwise-centerline", "list %u of a centerline trace is clockwise", i);
    for (unsigned j = 0; j < l.length; j++) {
      const at_spline_type &p = l.data[j];
      if (p.degree != AT_LINEARTYPE && p.degree != AT_CUBICTYPE) { report("degree", "list %u spline %u has degree %d", i, j, (int)p.degree); break; }
      for (int k = 0; k < 4; k++) {
        if (p.degree == AT_LINEARTYPE && (k == 1 || k == 2)) continue;
        bool end = k == 0 || k == 3;
        double e = end ? 1.001 : slack;
        if (!std::isfinite(p.v[k].x) || !std::isfinite(p.v[k].y) || !std::isfinite(p.v[k].z)) { report("not-finite", "list %u spline %u point %d is (%g,%g,%g)", i, j, k, p.v[k].x, p.v[k].y, p.v[k].z); break; }
        if (p.v[k].x < -e || p.v[k].y < -e || p.v[k].x > im.w + e || p.v[k].y > im.h + e) { report(end ? "end-outside" : "control-outside", "list %u spline %u point %d is (%g,%g) in a %dx%d frame", i, j, k, p.v[k].x, p.v[k].y, im.w, im.h); break; }
        if (!o->preserve_width && p.v[k].z != 0) { report("width-without-option", "list %u spline %u point %d has width %g", i, j, k, p.v[k].z); break; }
      }
      const at_spline_type &n = l.data[(j + 1) % l.length];
      if (j + 1 < l.length || !l.open) {
        if (p.v[3].x != n.v[0].x || p.v[3].y != n.v[0].y)
          report(j + 1 < l.length ? "joint" : "not-closed", "list %u: spline %u ends at (%g,%g), the next starts at (%g,%g)", i, j, p.v[3].x, p.v[3].y, n.v[0].x, n.v[0].y);
      }
      if (reported_any()) break;
    }
    count("splines", l.length);
  }
  count("lists", s->length);
  if (s->length) { c.nontrivial = true; sample("%dx%dx%d %s: %u lists", im.w, im.h, im.np, o->centerline ? "centerline" : "outline", s->length); }
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// ---- C06/C07: outlines reproduce the regions ----
// Holes whose first pixel (scanning rows) is not background while background follows inside
// cannot be expressed by the outlines; true if there is none.
static bool holes_expressible(const Img &im, bool have_bg, RGB bg) {
  if (!have_bg) return true;
  auto cols = im.colors();
  for (auto col : cols) {
    if (col == bg) continue;
    for (int conn = 4; conn <= 8; conn += 4) {
      // components of "not col"
      Img bin(im.w, im.h, 1);
      for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) bin.set(x, y, im.at(x, y) == col ? RGB{1, 1, 1} : RGB{0, 0, 0});
      std::vector<int> lab;
      int n = label(bin, conn, lab);
      std::vector<char> border((size_t)n, 0), isbg((size_t)n, 0), first((size_t)n, 2);
      for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
        size_t l = (size_t)lab[(size_t)y * im.w + x];
        if (x == 0 || y == 0 || x == im.w - 1 || y == im.h - 1) border[l] = 1;
        if (im.at(x, y) == bg) isbg[l] = 1;
        if (first[l] == 2) first[l] = im.at(x, y) == bg;
      }
      for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
        size_t l = (size_t)lab[(size_t)y * im.w + x];
        if (im.at(x, y) != col && !border[l] && isbg[l] && !first[l]) return false;
        if (conn == 8) continue;
        // a hole that touches another part of the complement diagonally may be taken together with it
        for (int dx = -1; dx <= 1; dx += 2) {
          int xx = x + dx, yy = y + 1;
          if (xx < 0 || xx >= im.w || yy >= im.h || im.at(x, y) == col || im.at(xx, yy) == col) continue;
          size_t l2 = (size_t)lab[(size_t)yy * im.w + xx];
          if (l != l2 && (!border[l] || !border[l2]) && (im.at(x, y) == bg) != (im.at(xx, yy) == bg)) return false;
        }
      }
    }
  }
  return true;
}
static Img scaled(const Img &im, int k) {
  Img r(im.w * k, im.h * k, im.np);
  for (int y = 0; y < r.h; y++) for (int x = 0; x < r.w; x++) r.set(x, y, im.at(x / k, y / k));
  return r;
}
struct OutlineCase { Img im; at_fitting_opts_type *o; bool have_bg; RGB bg; double tol; int scale; };
static OutlineCase outline_case(Ctx &c, bool smooth) {
  OutlineCase k;
  Rng &r = c.rng;
  GenOpt g;
  k.o = at_fitting_opts_new();
  unpoison(k.o, sizeof *k.o);
  k.o->filter_iterations = smooth && r.p(0.5) ? (unsigned)r.range(1, 4) : 0;
  k.o->line_threshold = smooth && r.p(0.5) ? (float)r.frange(0.05, 1.5) : 0;
  k.o->error_threshold = r.p(0.3) ? (float)r.frange(0.05, 0.5) : r.p(0.5) ? (float)r.frange(0.5, 2) : (float)r.frange(2, smooth ? 3 : 8);
  if (r.p(0.5)) k.o->line_reversion_threshold = (float)r.frange(0, 0.05);
  if (r.p(0.4)) k.o->corner_always_threshold = (float)r.frange(0, 180);
  if (r.p(0.4)) k.o->corner_threshold = (float)r.frange(0, 180);
  if (r.p(0.4)) k.o->corner_surround = (unsigned)r.range(1, 8);
  if (r.p(0.4)) k.o->tangent_surround = (unsigned)r.range(1, 8);
  k.o->remove_adjacent_corners = r.p(0.3);
  k.tol = std::max((double)k.o->error_threshold, 1.0) + 1.0 * k.o->filter_iterations + 2.5 * k.o->line_threshold + 0.75;
  k.scale = 1;
  g.maxdim = r.p(0.15) ? 60 : 28;
  g.maxcolors = r.p(0.3) ? 2 : 6;
  if (r.p(0.6)) {
    k.scale = r.range((int)(k.tol) + 1, (int)(2 * k.tol) + 3);
    g.maxdim = std::max(3, std::min(14, 120 / k.scale));
    k.im = scaled(gen_image(r, g), k.scale);
  } else k.im = gen_image(r, g);
  k.have_bg = r.p(0.5);
  if (k.have_bg) {
    k.bg = k.im.at((int)r.u((uint32_t)k.im.w), (int)r.u((uint32_t)k.im.h));
    k.o->background_color = at_color_new(k.bg.r, k.bg.g, k.bg.b);
  }
  return k;
}
// distance from the pixel's centre to the nearest pixel of another colour (capped)
static double clearance(const Img &im, int x, int y, int cap) {
  double best = cap;
  RGB c = im.at(x, y);
  for (int dy = -cap; dy <= cap; dy++) for (int dx = -cap; dx <= cap; dx++) {
    int xx = x + dx, yy = y + dy;
    if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) {   // the frame is a boundary as well
      double ex = std::max(0.0, fabs((double)dx) - 0.5), ey = std::max(0.0, fabs((double)dy) - 0.5);
      best = std::min(best, hypot(ex, ey));
      continue;
    }
    if (im.at(xx, yy) == c) continue;
    double ex = std::max(0.0, fabs((double)dx) - 0.5), ey = std::max(0.0, fabs((double)dy) - 0.5);
    best = std::min(best, hypot(ex, ey));
  }
  return best;
}
MODE(paint) {
  OutlineCase k = outline_case(c, true);
  const Img &im = k.im;
  say("%dx%dx%d scale %d tol %g\n", im.w, im.h, im.np, k.scale, k.tol);
  print_opts(k.o);
  auto pal = im.colors();
  print_img(im, pal);
  bool ok = holes_expressible(im, k.have_bg, k.bg);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, k.o, &m);
  use_hash(im.hash()); use_hash(hash_opts(k.o));
  if (!s) { report("no-splines", "%s", m.first); at_bitmap_free(b); at_fitting_opts_free(k.o); return; }
  if (memcmp(b->bitmap, im.px.data(), im.px.size())) report("bitmap-changed", "tracing outlines changed the bitmap");
  if (!ok) count("inexpressible_holes");
  else {
    std::vector<std::vector<P2>> poly(s->length);
    for (unsigned i = 0; i < s->length; i++) poly[i] = flatten(s->data[i], 12);
    int cap = (int)ceil(k.tol) + 1;
    for (int y = 0; y < im.h && !reported_any(); y++) for (int x = 0; x < im.w; x++) {
      if (clearance(im, x, y, cap) <= k.tol) continue;
      double px = x + 0.5, py = im.h - y - 0.5;
      bool painted = false;
      RGB got = k.bg;
      for (unsigned i = 0; i < s->length; i++) if (winding(poly[i], px, py)) {
        if (s->data[i].clockwise) { painted = false; got = k.bg; }
        else { painted = true; got = rgb(s->data[i].color); }
      }
      RGB want = im.at(x, y);
      bool wantp = !(k.have_bg && want == k.bg);
      count("pixels_compared");
      c.nontrivial = true;
      if (painted != wantp || (painted && got != want)) {
        report(!painted ? "unpainted" : wantp ? "wrong-colour" : "painted-background", "pixel (%d,%d) of %dx%d is %s%06x, expected %s%06x", x, y, im.w, im.h, painted ? "" : "bare ", painted ? got.code() : 0, wantp ? "" : "bare ", want.code());
        break;
      }
    }
  }
  count("lists", s->length);
  if (c.nontrivial) sample("%dx%d, %zu colours, %u lists painted", im.w, im.h, pal.size(), s->length);
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(k.o);
}
MODE(bound) {
  OutlineCase k = outline_case(c, c.rng.p(0.3));
  k.o->line_threshold = 0;
  const Img &im = k.im;
  double tol = std::max(k.o->error_threshold + 0.75, 1.6) + 0.001 + (k.o->filter_iterations ? 1.0 + 0.5 * (k.o->filter_iterations - 1) : 0);
  say("%dx%dx%d scale %d tol %g\n", im.w, im.h, im.np, k.scale, tol);
  print_opts(k.o);
  auto pal = im.colors();
  print_img(im, pal);
  bool ok = holes_expressible(im, k.have_bg, k.bg);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, k.o, &m);
  use_hash(im.hash()); use_hash(hash_opts(k.o));
  if (!s) { report("no-splines", "%s", m.first); at_bitmap_free(b); at_fitting_opts_free(k.o); return; }
  std::vector<std::vector<P2>> poly(s->length);
  for (unsigned i = 0; i < s->length; i++) poly[i] = flatten(s->data[i], 16);
  // pixel boundaries: unit edges between different colours (or the frame); y up
  struct Edge { P2 a, b; RGB c1, c2; bool in1, in2; };
  std::vector<Edge> edges;
  for (int y = 0; y <= im.h; y++) for (int x = 0; x < im.w; x++) {   // horizontal
    bool i1 = y > 0, i2 = y < im.h;
    RGB u = i1 ? im.at(x, y - 1) : RGB{0, 0, 0}, d = i2 ? im.at(x, y) : RGB{0, 0, 0};
    if (i1 && i2 && u == d) continue;
    edges.push_back(Edge{P2{(double)x, (double)(im.h - y)}, P2{x + 1.0, (double)(im.h - y)}, u, d, i1, i2});
  }
  for (int y = 0; y < im.h; y++) for (int x = 0; x <= im.w; x++) {   // vertical
    bool i1 = x > 0, i2 = x < im.w;
    RGB u = i1 ? im.at(x - 1, y) : RGB{0, 0, 0}, d = i2 ? im.at(x, y) : RGB{0, 0, 0};
    if (i1 && i2 && u == d) continue;
    edges.push_back(Edge{P2{(double)x, (double)(im.h - y)}, P2{(double)x, im.h - y - 1.0}, u, d, i1, i2});
  }
  double worst = 0, worstj = 0;
  if (ok) for (auto &e : edges) {
    bool n1 = e.in1 && !(k.have_bg && e.c1 == k.bg), n2 = e.in2 && !(k.have_bg && e.c2 == k.bg);
    if (!n1 && !n2) continue;
    double best = 1e30;
    for (unsigned i = 0; i < s->length && best > 0.3; i++) {
      RGB lc = rgb(s->data[i].color);
      if (!(n1 && lc == e.c1) && !(n2 && lc == e.c2)) continue;
      best = std::min(best, path_dist(poly[i], true, e.a.x, e.a.y));
    }
    worst = std::max(worst, best);
    if (best > tol + 0.3) say("  point (%g,%g): %.3f\n", e.a.x, e.a.y, best);
    count("boundary_points");
    if (best > tol) { report("boundary-lost", "boundary point (%g,%g) is %.3f from every outline of its colours, allowed %.3f", e.a.x, e.a.y, best, tol); break; }
  }
  for (unsigned i = 0; i < s->length && !reported_any(); i++) {
    RGB lc = rgb(s->data[i].color);
    for (unsigned j = 0; j < s->data[i].length; j++) {
      const at_spline_type &p = s->data[i].data[j];
      double best = 1e30;
      for (auto &e : edges) if ((e.in1 && e.c1 == lc) || (e.in2 && e.c2 == lc)) best = std::min(best, seg_dist(e.a, e.b, p.v[3].x, p.v[3].y));
      worstj = std::max(worstj, best);
      count("joints");
      if (best > 0.001 + (k.o->filter_iterations ? 1.0 + 0.5 * (k.o->filter_iterations - 1) : 0)) { report("joint-off", "joint (%g,%g) of list %u is %.3f from the boundary of its colour", p.v[3].x, p.v[3].y, i, best); break; }
    }
  }
  double worstm = 0;
  for (unsigned i = 0; i < s->length && !reported_any(); i++) {
    RGB lc = rgb(s->data[i].color);
    for (unsigned j = 0; j < s->data[i].length; j++) {
      const at_spline_type &p = s->data[i].data[j];
      for (int n = 1; n < 8; n++) {
        P2 q = bez(p, n / 8.0);
        double best = 1e30;
        for (auto &e : edges) if ((e.in1 && e.c1 == lc) || (e.in2 && e.c2 == lc)) best = std::min(best, seg_dist(e.a, e.b, q.x, q.y));
        worstm = std::max(worstm, best);
        if (best > tol) { report("curve-off", "list %u spline %u strays %.3f from the boundary of its colour, allowed %.3f", i, j, best, tol); break; }
      }
    }
  }
  say("worst %g joint %g mid %g\n", worst, worstj, worstm);
  if (s->length) { c.nontrivial = true; sample("%dx%d err %.2f filter %u: largest distance %.2f (allowed %.2f), joints %.2f", im.w, im.h, k.o->error_threshold, k.o->filter_iterations, worst, tol, worstj); }
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(k.o);
}

// ---- C08: centerlines ----
static int comps_of(const Img &im, RGB col, bool inside, int conn, std::vector<int> &lab) {
  // components of pixels equal (inside) or unequal to col, in a frame one pixel larger
  Img bin(im.w + 2, im.h + 2, 1);
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) bin.set(x + 1, y + 1, im.at(x, y) == col ? RGB{1, 1, 1} : RGB{0, 0, 0});
  std::vector<int> l;
  int n = label(bin, conn, l), k = 0;
  std::vector<int> map((size_t)n, -1);
  lab.assign((size_t)im.w * im.h, -1);
  for (int y = 0; y < bin.h; y++) for (int x = 0; x < bin.w; x++) if ((bin.at(x, y).r == 1) == inside) {
    size_t i = (size_t)l[(size_t)y * bin.w + x];
    if (map[i] < 0) map[i] = k++;
    if (x > 0 && y > 0 && x <= im.w && y <= im.h) lab[(size_t)(y - 1) * im.w + x - 1] = map[i];
  }
  return k;
}
MODE(center) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 70 : 30;
  g.maxcolors = 5;
  bool have_bg = r.p(0.6);
  g.np = r.p(0.4) ? 1 : 3;
  RGB bg{255, 255, 255};
  if (have_bg) bg = g.np == 1 ? RGB{(unsigned char)r.u(256), 0, 0} : RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
  if (g.np == 1) bg = grey_of(bg, 1);
  Img im = r.p(0.7) ? gen_strokes(r, g, true, bg) : gen_image(r, g);
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  o->centerline = true;
  o->filter_iterations = r.p(0.5) ? 0 : (unsigned)r.range(1, 4);
  o->error_threshold = r.p(0.5) ? (float)r.frange(0.05, 1) : (float)r.frange(0.5, 4);
  o->line_threshold = 0;
  o->preserve_width = r.p(0.2);
  if (r.p(0.3)) o->corner_always_threshold = (float)r.frange(0, 180);
  if (r.p(0.3)) o->corner_threshold = (float)r.frange(0, 180);
  if (r.p(0.3)) o->corner_surround = (unsigned)r.range(1, 8);
  if (r.p(0.3)) o->tangent_surround = (unsigned)r.range(1, 8);
  o->remove_adjacent_corners = r.p(0.3);
  if (have_bg) o->background_color = at_color_new(bg.r, bg.g, bg.b);
  print_opts(o);
  auto pal = im.colors();
  if (!has(pal, bg)) pal.push_back(bg);
  print_img(im, pal);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (!s) { report("no-splines", "%s", m.first); at_bitmap_free(b); at_fitting_opts_free(o); return; }
  Img th = from_bitmap(b);
  say("thinned:\n");
  print_img(th, pal);
  for (int y = 0; y < im.h && !reported_any(); y++) for (int x = 0; x < im.w; x++) {
    RGB p = im.at(x, y), q = th.at(x, y);
    if (q != p && q != bg) { report("recoloured", "pixel (%d,%d) changed from %06x to %06x, background is %06x", x, y, p.code(), q.code(), bg.code()); break; }
  }
  std::vector<int> l0, l1;
  for (auto col : pal) {
    if (col == bg || reported_any()) continue;
    int n0 = comps_of(im, col, true, 8, l0), n1 = comps_of(th, col, true, 8, l1);
    if (n0 != n1) report(n1 < n0 ? "stroke-vanished" : "stroke-split", "colour %06x: %d strokes before thinning, %d after", col.code(), n0, n1);
    std::vector<int> owner((size_t)n1 + 1, -1);
    std::vector<char> seen((size_t)n0 + 1, 0);
    for (size_t i = 0; i < l1.size(); i++) if (l1[i] >= 0) {
      int &ow = owner[(size_t)l1[i]];
      if (ow < 0) ow = l0[i];
      else if (ow != l0[i] && !reported_any()) report("stroke-merged", "strokes of colour %06x were joined by thinning", col.code());
      if (l0[i] >= 0) seen[(size_t)l0[i]] = 1;
    }
    for (int i = 0; i < n0 && !reported_any(); i++) if (!seen[(size_t)i]) report("stroke-vanished", "a stroke of colour %06x vanished", col.code());
    std::vector<int> h0, h1;
    int m0 = comps_of(im, col, false, 4, h0), m1 = comps_of(th, col, false, 4, h1);
    if (m0 != m1 && !reported_any()) report("holes-changed", "colour %06x: %d holes before thinning, %d after", col.code(), m0 - 1, m1 - 1);
    count("strokes", n1);
    if (n1) c.nontrivial = true;
    for (int y = 0; y < th.h && !reported_any(); y++) for (int x = 0; x < th.w; x++) {
      if (th.at(x, y) != col) continue;
      bool nb[3][3];
      int cnt = 0, open4 = 0;
      for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
        int xx = x + dx, yy = y + dy;
        bool in = xx >= 0 && yy >= 0 && xx < th.w && yy < th.h;
        bool e = in && th.at(xx, yy) == col && (dx || dy);
        nb[dy + 1][dx + 1] = e;
        cnt += e;
        if (in && !e && (dx == 0) != (dy == 0)) open4++;
      }
      if (cnt < 2 || !open4) continue;
      // number of 8-connected groups among the neighbours
      int id[3][3], groups = 0;
      memset(id, 0, sizeof id);
      for (int a = 0; a < 9; a++) if (nb[a / 3][a % 3] && !id[a / 3][a % 3]) {
        std::vector<int> st(1, a);
        id[a / 3][a % 3] = ++groups;
        while (!st.empty()) {
          int k = st.back();
          st.pop_back();
          for (int e = 0; e < 9; e++) if (nb[e / 3][e % 3] && !id[e / 3][e % 3] && abs(e / 3 - k / 3) <= 1 && abs(e % 3 - k % 3) <= 1) { id[e / 3][e % 3] = groups; st.push_back(e); }
        }
      }
      if (groups == 1) { report("not-thin", "pixel (%d,%d) of colour %06x could still be removed", x, y, col.code()); break; }
    }
    // curves and strokes
    std::vector<int> size((size_t)n1, 0);
    std::vector<double> near((size_t)n1, 1e30);
    std::vector<std::vector<P2>> polys;
    for (unsigned i = 0; i < s->length; i++) if (rgb(s->data[i].color) == col) polys.push_back(flatten(s->data[i], 16));
    std::vector<double> far((size_t)n1, 0);
    for (int y = 0; y < th.h && !reported_any(); y++) for (int x = 0; x < th.w; x++) {
      int l = l1[(size_t)y * th.w + x];
      if (l < 0) continue;
      size[(size_t)l]++;
      double d = 1e30;
      for (auto &p : polys) d = std::min(d, path_dist(p, false, x, im.h - 1 - y));
      near[(size_t)l] = std::min(near[(size_t)l], d);
      far[(size_t)l] = std::max(far[(size_t)l], d);
    }
    double lim = 5 + o->error_threshold + 0.5 * o->filter_iterations;
    for (int i = 0; i < n1 && !reported_any(); i++) if (size[(size_t)i] > 1 && far[(size_t)i] > lim) report("stroke-lost", "a thinned stroke of %d pixels has a pixel %.2f from every curve", size[(size_t)i], far[(size_t)i]);
    for (int i = 0; i < n1; i++) if (size[(size_t)i] > 1) say("FAR %g err %g filt %u size %d near %g\n", far[(size_t)i], o->error_threshold, o->filter_iterations, size[(size_t)i], near[(size_t)i]);
  }
  for (unsigned i = 0; i < s->length && !reported_any(); i++) {
    RGB col = rgb(s->data[i].color);
    if (col == bg) report("background-curve", "list %u follows the background", i);
    for (unsigned j = 0; j < s->data[i].length; j++) {
      const at_spline_type &p = s->data[i].data[j];
      for (int e = 0; e < 4; e += 3) {
        double best = 1e30;
        for (int y = 0; y < th.h; y++) for (int x = 0; x < th.w; x++) if (th.at(x, y) == col) best = std::min(best, hypot(x - p.v[e].x, im.h - 1 - y - p.v[e].y));
        count("ends");
        if (best > 0.001 + (o->filter_iterations ? 1.0 + 0.5 * (o->filter_iterations - 1) : 0)) { report("end-off-stroke", "list %u spline %u end (%g,%g) is %.3f from the thinned stroke", i, j, p.v[e].x, p.v[e].y, best); break; }
      }
      if (reported_any()) break;
    }
  }
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// ---- C24: only equality of colours matters ----
static Img recoloured(const Img &im, const std::vector<RGB> &from, const std::vector<RGB> &to, int np) {
  Img r(im.w, im.h, np);
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) r.set(x, y, to[(size_t)(std::find(from.begin(), from.end(), im.at(x, y)) - from.begin())]);
  return r;
}
MODE(recolor) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.15) ? 60 : 26;
  g.maxcolors = r.p(0.1) ? 30 : 6;
  g.np = r.p(0.35) ? 1 : 3;
  bool center = r.p(0.4);
  bool have_bg = r.p(0.6);
  RGB white{255, 255, 255};
  Img im = center && r.p(0.6) ? gen_strokes(r, g, !have_bg, white) : gen_image(r, g);
  auto from = im.colors();
  at_fitting_opts_type *o = gen_opts(r, im);
  o->color_count = 0;
  o->despeckle_level = 0;
  o->centerline = center;
  o->preserve_width = false;
  if (o->background_color) { at_color_free(o->background_color); o->background_color = nullptr; }
  RGB bg = im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h));
  // new colours, one to one; without a background colour centerlines take white as background
  int np2 = im.np;
  bool planes = !center && im.np == 1 && r.p(0.4);   // same greys as three planes
  std::vector<RGB> to = from;
  if (planes) np2 = 3;
  else {
    std::vector<RGB> pool;
    int style = (int)r.u(4);
    if (style == 0) { pool = from; }   // permute
    else if (style == 1 && np2 == 3) {   // nearly equal colours
      RGB base{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
      for (int i = 0; pool.size() < from.size() + 2 && i < 1000; i++) { RGB q = base; switch (i % 3) { case 0: q.r = (unsigned char)(q.r + i / 3); break; case 1: q.g = (unsigned char)(q.g + i / 3); break; default: q.b = (unsigned char)(q.b + i / 3); } if (!has(pool, q)) pool.push_back(q); }
    } else if (style == 2 && np2 == 3) {   // equal in two channels or in the sum
      for (int i = 0; pool.size() < from.size() + 2 && i < 4000; i++) { unsigned char v = (unsigned char)r.u(256), u = (unsigned char)r.u(256); RGB q = i % 3 == 0 ? RGB{v, u, 0} : i % 3 == 1 ? RGB{u, v, 0} : RGB{0, u, v}; if (!has(pool, q)) pool.push_back(q); }
    } else pool = gen_palette(r, (int)from.size() + 2, np2);
    if (pool.size() < from.size()) pool = from;
    bool white_is_bg = center && !have_bg;
    if (white_is_bg) pool.erase(std::remove(pool.begin(), pool.end(), white), pool.end());
    if (pool.size() < from.size()) { pool = from; if (white_is_bg) pool.erase(std::remove(pool.begin(), pool.end(), white), pool.end()); }
    for (size_t i = 0; i + 1 < pool.size(); i++) std::swap(pool[i], pool[i + r.u((uint32_t)(pool.size() - i))]);
    size_t k = 0;
    for (size_t i = 0; i < from.size(); i++) to[i] = (white_is_bg && from[i] == white) ? white : pool[k++];
  }
  Img im2 = recoloured(im, from, to, np2);
  RGB bg2 = to[(size_t)(std::find(from.begin(), from.end(), bg) - from.begin())];
  print_opts(o);
  print_img(im, from);
  for (size_t i = 0; i < from.size(); i++) say("%06x->%06x ", from[i].code(), to[i].code());
  say("\nbg %d %06x\n", have_bg, bg.code());
  at_fitting_opts_type *o2 = at_fitting_opts_copy(o);
  unpoison(o2, sizeof *o2);
  if (have_bg) { o->background_color = at_color_new(bg.r, bg.g, bg.b); o2->background_color = at_color_new(bg2.r, bg2.g, bg2.b); }
  at_bitmap *b1 = to_bitmap(im), *b2 = to_bitmap(im2);
  Msgs m1, m2;
  at_splines_type *s1 = trace(b1, o, &m1), *s2 = trace(b2, o2, &m2);
  use_hash(im.hash()); use_hash(im2.hash()); use_hash(hash_opts(o));
  char why[200];
  if (!splines_same(s1, s2, false, why, sizeof why)) report(planes ? "planes-differ" : center ? "centerline-differs" : "outline-differs", "after recolouring: %s", why);
  else if (s1) {
    for (unsigned i = 0; i < s1->length; i++) {
      RGB a = rgb(s1->data[i].color), q = rgb(s2->data[i].color);
      size_t k = (size_t)(std::find(from.begin(), from.end(), a) - from.begin());
      if (k == from.size() || to[k] != q) { report("list-colour", "list %u has colour %06x, recoloured %06x", i, a.code(), q.code()); break; }
    }
    if (s1->length) { c.nontrivial = true; count("lists", s1->length); sample("%dx%d %s, %zu colours, %u lists", im.w, im.h, planes ? "1 and 3 planes" : center ? "centerline" : "outline", from.size(), s1->length); }
  }
  if (s1) at_splines_free(s1);
  if (s2) at_splines_free(s2);
  at_bitmap_free(b1); at_bitmap_free(b2);
  at_fitting_opts_free(o); at_fitting_opts_free(o2);
}

// ---- C26: preserved widths ----
MODE(widths) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 60 : 30;
  g.np = r.p(0.5) ? 1 : 3;
  RGB white{255, 255, 255}, black{0, 0, 0};
  int kind = (int)r.u(4);   // 0 straight bar, 1 black strokes, 2 strokes of other colours, 3 widths off
  Img im(r.range(8, g.maxdim), r.range(8, g.maxdim), g.np);
  for (auto &b : im.px) b = 255;
  int t = 0;
  if (kind == 0) {
    bool v = r.p(0.5);
    int L = v ? im.h : im.w, T = v ? im.w : im.h;
    t = r.range(1, std::min(12, T));
    int off = r.range(0, T - t), a = r.range(0, L / 3), z = r.range(2 * L / 3, L - 1);
    for (int i = a; i <= z; i++) for (int k = 0; k < t; k++) im.set(v ? off + k : i, v ? i : off + k, black);
  } else {
    g.maxcolors = 4;
    im = gen_strokes(r, g, true, white);
    if (kind == 1) for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) if (im.at(x, y) != white) im.set(x, y, black);
  }
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  o->centerline = true;
  o->preserve_width = kind != 3;
  o->width_weight_factor = r.p(0.3) ? (float)r.range(0, 10) : (float)r.frange(0, 10);
  o->filter_iterations = r.p(0.6) ? 0 : (unsigned)r.range(1, 4);
  o->error_threshold = (float)r.frange(0.2, 3);
  o->line_threshold = r.p(0.5) ? 0 : (float)r.frange(0, 2);
  if (r.p(0.5)) o->background_color = at_color_new(255, 255, 255);
  print_opts(o);
  auto pal = im.colors();
  print_img(im, pal);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (!s) { report("no-splines", "%s", m.first); at_bitmap_free(b); at_fitting_opts_free(o); return; }
  // distance of every pixel to the background (outside counts as background), steps of 1 and sqrt 2
  int w = im.w, h = im.h;
  std::vector<double> d((size_t)w * h, 1e9), up((size_t)w * h, 1e9);
  auto D = [&](int x, int y) -> double { return x < 0 || y < 0 || x >= w || y >= h ? 0 : d[(size_t)y * w + x]; };
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (im.at(x, y) == white) d[(size_t)y * w + x] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      double best = D(x, y);
      for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (dx || dy) best = std::min(best, D(x + dx, y + dy) + ((dx && dy) ? M_SQRT2 : 1));
      if (best < d[(size_t)y * w + x] - 1e-9) { d[(size_t)y * w + x] = best; ch = true; }
    }
  }
  double F = o->width_weight_factor, dmax = 0;
  for (auto v : d) dmax = std::max(dmax, v);
  Img th = from_bitmap(b);
  for (unsigned i = 0; i < s->length && !reported_any(); i++) for (unsigned j = 0; j < s->data[i].length && !reported_any(); j++) for (int e = 0; e < 4; e += 3) {
    const at_real_coord &p = s->data[i].data[j].v[e];
    count("widths");
    c.nontrivial = true;
    if (!o->preserve_width) { if (p.z != 0) { report("width-without-option", "list %u spline %u end has width %g", i, j, p.z); break; } continue; }
    if (!(p.z >= 0)) { report("negative-width", "list %u spline %u end has width %g", i, j, p.z); break; }
    if (p.z > F * dmax + 1e-3 * (1 + F)) { report("width-too-large", "list %u spline %u end has width %g, factor %g, greatest distance %g", i, j, p.z, F, dmax); break; }
    int x = (int)lrint(p.x), y = (int)lrint(im.h - 1 - p.y);
    if (kind <= 1 && o->filter_iterations == 0) {   // black on white: at the thinned pixel itself
      double loc = D(x, y), nb = 0;
      for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) nb = std::max(nb, D(x + dx, y + dy));
      if (p.z < F * loc - 1e-3 * (1 + F) || p.z > F * (nb + 0.01) + 1e-3) { report("width-wrong", "end (%g,%g) has width %g, factor %g, distance there %g, in its neighbourhood %g", p.x, p.y, p.z, F, loc, nb); break; }
    }
  }
  if (c.nontrivial) sample("%dx%d kind %d thickness %d factor %.2f: greatest distance %.2f, %u lists", im.w, im.h, kind, t, F, dmax, s->length);
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

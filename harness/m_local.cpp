// Modes that compare traces of related bitmaps: local (C27).
#include "geom.hpp"

static at_splines_type *trace(at_bitmap *b, at_fitting_opts_type *o, Msgs *m) { return at_splines_new_full(b, o, msg_cb, m, nullptr, nullptr, nullptr, nullptr); }
static void paste(Img &dst, const Img &src, int x0, int y0) {
  for (int y = 0; y < src.h; y++) for (int x = 0; x < src.w; x++) dst.set(x0 + x, y0 + y, src.at(x, y));
}
static bool list_same(const at_spline_list_type *x, const at_spline_list_type *y, char *why, size_t n) {
  at_splines_type a, b;
  memset(&a, 0, sizeof a);
  memset(&b, 0, sizeof b);
  a.data = const_cast<at_spline_list_type *>(x); a.length = 1;
  b.data = const_cast<at_spline_list_type *>(y); b.length = 1;
  return splines_same(&a, &b, true, why, n);
}

// ---- C27: what lies elsewhere in the image does not matter ----
MODE(local) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.15) ? 50 : 24;
  g.maxcolors = 5;
  g.np = r.p(0.4) ? 1 : 3;
  bool center = r.p(0.45), white_default = center && r.p(0.3);
  RGB bg = white_default ? RGB{255, 255, 255} : gen_palette(r, 1, g.np)[0];
  auto make = [&]() -> Img {
    if (r.p(center ? 0.4 : 0.1)) {        // thick shapes, which take several passes to thin
      Img im(r.range(6, g.maxdim), r.range(6, g.maxdim), g.np);
      for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) im.set(x, y, bg);
      auto pal = gen_palette(r, 3, g.np);
      for (int k = r.range(1, 4); k--;) {
        RGB q = pal[r.u(r.p(0.7) ? 1 : 3)];
        if (q == bg) q.r = (unsigned char)(q.r ^ 64);
        if (g.np == 1) q.g = q.b = q.r;
        int x0 = (int)r.u((uint32_t)im.w), y0 = (int)r.u((uint32_t)im.h), x1 = std::min(im.w, x0 + r.range(1, 12)), y1 = std::min(im.h, y0 + r.range(1, 12));
        if (r.p(0.3)) draw_disc(im, x0, y0, r.frange(1, 9), r.frange(1, 9), q);
        else for (int y = y0; y < y1; y++) for (int x = x0; x < x1; x++) im.set(x, y, q);
      }
      return im;
    }
    if (center || r.p(0.3)) return gen_strokes(r, g, true, bg);
    Img im = gen_image(r, g);
    RGB k = im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h));     // one of its colours becomes the background
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
      RGB p = im.at(x, y);
      if (p == k) im.set(x, y, bg);
      else if (p == bg) im.set(x, y, k);
    }
    return im;
  };
  Img a = make();
  if (center) {                 // strokes that end at the border of the image are thinned otherwise
    Img m(a.w + 4, a.h + 4, a.np);
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) m.set(x, y, bg);
    paste(m, a, 2, 2);
    a = m;
  }
  at_fitting_opts_type *o = gen_opts(r, a);
  o->color_count = 0;
  o->despeckle_level = 0;
  o->centerline = center;
  o->preserve_width = false;
  if (o->background_color) at_color_free(o->background_color);
  o->background_color = white_default ? nullptr : at_color_new(bg.r, bg.g, bg.b);
  // A keeps its place at the bottom left; the rest is background or other drawings
  const int GAP = 4;
  Img right = make(), above = make();
  if (r.p(0.7)) {               // in the colours of the drawing itself
    std::vector<RGB> own;
    for (RGB q : a.colors()) if (q != bg) own.push_back(q);
    for (Img *im : {&right, &above}) {
      uint32_t shift = r.u(8);
      if (!own.empty()) for (int y = 0; y < im->h; y++) for (int x = 0; x < im->w; x++) { RGB q = im->at(x, y); if (q != bg) im->set(x, y, own[(q.code() * 2654435761u / 65536 + shift) % own.size()]); }
    }
  }
  bool hr = r.p(0.7), ha = r.p(0.7);
  int W = a.w + (hr ? GAP + right.w : r.range(0, 12)) + r.range(0, 3), H = a.h + (ha ? GAP + above.h : r.range(0, 12)) + r.range(0, 3);
  if (hr) H = std::max(H, right.h);
  if (ha) W = std::max(W, above.w);
  Img big(W, H, a.np);
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) big.set(x, y, bg);
  paste(big, a, 0, H - a.h);
  if (ha) paste(big, above, r.range(0, W - above.w), r.range(0, H - a.h - GAP - above.h));
  if (hr) {                     // not over the drawing above
    int lo = ha ? H - a.h : 0, hi = H - right.h;
    if (lo <= hi) paste(big, right, r.range(a.w + GAP, W - right.w), r.range(lo, hi));
  }
  print_opts(o);
  print_img(a, a.colors());
  print_img(big, big.colors());
  at_bitmap *b1 = to_bitmap(a), *b2 = to_bitmap(big);
  Msgs m1, m2;
  at_splines_type *s1 = trace(b1, o, &m1), *s2 = trace(b2, o, &m2);
  use_hash(a.hash()); use_hash(big.hash()); use_hash(hash_opts(o));
  if (!s1 || !s2) report("no-splines", "tracing returned no splines: %s%s", m1.first, m2.first);
  else {
    const char *kind = center ? "centerline" : "outline";
    unsigned j = 0, others = 0;
    char why[200], key[64];
    for (unsigned i = 0; i <= s1->length && !reported_any(); i++) {
      for (; j < s2->length; j++, others++) {
        const at_real_coord &p = s2->data[j].data[0].v[0];
        if (p.x < a.w + GAP / 2 && p.y < a.h + GAP / 2) break;
      }
      snprintf(key, sizeof key, "%s-depends-on-elsewhere", kind);
      if (i == s1->length) { if (j < s2->length) report(key, "%u lists alone, more in a larger image", s1->length); break; }
      if (j == s2->length) { report(key, "%u lists alone, %u of them in a larger image", s1->length, i); break; }
      if (!list_same(&s1->data[i], &s2->data[j], why, sizeof why)) report(key, "list %u of %dx%d alone and in %dx%d: %s", i, a.w, a.h, W, H, why);
      j++;
    }
    count("lists_compared", s1->length);
    count("other_lists", others);
    if (center) {                // the thinned bitmap as well
      Img t1 = from_bitmap(b1), t2 = from_bitmap(b2);
      for (int y = 0; y < a.h && !reported_any(); y++) for (int x = 0; x < a.w; x++) if (t1.at(x, y) != t2.at(x, y + H - a.h)) { report("thinning-depends-on-elsewhere", "pixel (%d,%d) of %dx%d is thinned differently in %dx%d", x, y, a.w, a.h, W, H); break; }
      count("thinned_bitmaps_compared");
    }
    if (s1->length) { c.nontrivial = true; sample("%s: %u lists of %dx%d again in %dx%d with %u more", kind, s1->length, a.w, a.h, W, H, others); }
  }
  if (s1 && r.p(0.5)) {         // moved to another place
    int dx = r.range(0, 20), dy = r.range(0, 20);
    Img mv(a.w + dx + r.range(0, 3), a.h + dy + r.range(0, 3), a.np);
    for (int y = 0; y < mv.h; y++) for (int x = 0; x < mv.w; x++) mv.set(x, y, bg);
    paste(mv, a, dx, mv.h - dy - a.h);
    at_bitmap *b3 = to_bitmap(mv);
    Msgs m3;
    at_splines_type *s3 = trace(b3, o, &m3);
    if (!s3) report("no-splines", "tracing returned no splines: %s", m3.first);
    else {
      if (s3->length != s1->length) report("moved-drawing", "%u lists, %u when moved by (%d,%d)", s1->length, s3->length, dx, dy);
      for (unsigned i = 0; i < s1->length && !reported_any(); i++) {
        const at_spline_list_type &p = s1->data[i], &q = s3->data[i];
        if (rgb(p.color) != rgb(q.color) || p.clockwise != q.clockwise || p.open != q.open) report("moved-drawing", "list %u has another colour or flag when moved by (%d,%d)", i, dx, dy);
        bool eq = p.length == q.length;
        for (unsigned k = 0; eq && k < p.length; k++) eq = p.data[k].degree == q.data[k].degree && fabs(p.data[k].v[0].x + dx - q.data[k].v[0].x) < 0.01 && fabs(p.data[k].v[0].y + dy - q.data[k].v[0].y) < 0.01;
        count(eq ? "moved_same" : "moved_not_same");
      }
      count("moved_drawings");
    }
    if (s3) at_splines_free(s3);
    at_bitmap_free(b3);
  }
  if (s1) at_splines_free(s1);
  if (s2) at_splines_free(s2);
  at_bitmap_free(b1); at_bitmap_free(b2);
  at_fitting_opts_free(o);
}

// ---- C28: shapes with horizontal and vertical edges only ----
MODE(boxes) {
  Rng &r = c.rng;
  GenOpt g;
  int k = r.range(2, 14);
  g.maxdim = std::max(2, std::min(10, 90 / k));
  g.maxcolors = r.p(0.5) ? 2 : 4;
  g.np = r.p(0.4) ? 1 : 3;
  Img small = gen_image(r, g);
  // widths and heights of the cells
  std::vector<int> cx(1, 0), cy(1, 0);
  for (int i = 0; i < small.w; i++) cx.push_back(cx.back() + k + (r.p(0.3) ? r.range(0, k) : 0));
  for (int i = 0; i < small.h; i++) cy.push_back(cy.back() + k + (r.p(0.3) ? r.range(0, k) : 0));
  // no regions that touch at a corner only
  auto touch = [&]() {
    for (int y = 0; y + 1 < small.h; y++) for (int x = 0; x + 1 < small.w; x++) {
      RGB p = small.at(x, y), q = small.at(x + 1, y), s = small.at(x, y + 1), t = small.at(x + 1, y + 1);
      if ((p == t && q != p && s != p) || (q == s && p != q && t != q)) { small.set(x + 1, y + 1, q); small.set(x, y + 1, p); return true; }
    }
    return false;
  };
  for (int i = 0; i < 400 && touch(); i++) {}
  if (touch()) return;
  Img im(cx.back(), cy.back(), small.np);
  for (int y = 0; y < small.h; y++) for (int x = 0; x < small.w; x++)
    for (int v = cy[(size_t)y]; v < cy[(size_t)y + 1]; v++) for (int u = cx[(size_t)x]; u < cx[(size_t)x + 1]; u++) im.set(u, v, small.at(x, y));
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  if (r.p(0.7)) { RGB b = im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h)); o->background_color = at_color_new(b.r, b.g, b.b); }
  if (r.p(0.7)) o->filter_iterations = (unsigned)r.range(0, 8);
  if (r.p(0.5)) o->corner_surround = (unsigned)r.range(1, std::min(k, 6));
  else if ((int)o->corner_surround > k) o->corner_surround = (unsigned)k;
  if (r.p(0.5)) o->tangent_surround = (unsigned)r.range(1, 20);
  if (r.p(0.5)) o->error_threshold = (float)r.frange(0, 20);
  if (r.p(0.5)) o->line_threshold = (float)r.frange(0, 20);
  if (r.p(0.5)) o->line_reversion_threshold = (float)r.frange(0, 1);
  if (r.p(0.5)) o->corner_threshold = (float)r.frange(91, 100);
  if (r.p(0.5)) o->corner_always_threshold = (float)r.frange(0, 91);
  o->remove_adjacent_corners = false;
  print_opts(o);
  print_img(im, im.colors());
  say("k %d\n", k);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  auto is = [&](int x, int y, RGB q) { return x >= 0 && y >= 0 && x < im.w && y < im.h && im.at(x, y) == q; };
  auto corners = [&](int x, int y, RGB q) { return is(x - 1, y - 1, q) + is(x, y - 1, q) + is(x - 1, y, q) + is(x, y, q); };
  if (!s) report("no-splines", "tracing returned no splines: %s", m.first);
  for (unsigned i = 0; s && i < s->length && !reported_any(); i++) {
    const at_spline_list_type &l = s->data[i];
    RGB q = rgb(l.color);
    for (unsigned j = 0; j < l.length && !reported_any(); j++) {
      const at_spline_type &p = l.data[j];
      double x0 = p.v[0].x, y0 = im.h - p.v[0].y, x1 = p.v[3].x, y1 = im.h - p.v[3].y;
      if (p.degree != AT_LINEARTYPE) { report("edge-not-straight", "list %u spline %u from (%g,%g) to (%g,%g) is not a line", i, j, x0, y0, x1, y1); break; }
      if (x0 != floor(x0) || y0 != floor(y0)) { report("corner-moved", "list %u starts line %u at (%g,%g)", i, j, x0, y0); break; }
      int n = corners((int)x0, (int)y0, q);
      if (n != 1 && n != 3) { report("corner-invented", "list %u line %u starts at (%g,%g) in the middle of an edge", i, j, x0, y0); break; }
      if ((x0 != x1) == (y0 != y1)) { report("corner-cut", "list %u line %u goes from (%g,%g) to (%g,%g)", i, j, x0, y0, x1, y1); break; }
      int dx = x1 > x0 ? 1 : x1 < x0 ? -1 : 0, dy = y1 > y0 ? 1 : y1 < y0 ? -1 : 0;
      for (int x = (int)x0 + dx, y = (int)y0 + dy; x != x1 || y != y1; x += dx, y += dy) if (corners(x, y, q) != 2) { report("corner-passed", "list %u line %u from (%g,%g) to (%g,%g) passes the corner (%d,%d)", i, j, x0, y0, x1, y1, x, y); break; }
      count("edges");
    }
    count("lists");
  }
  if (s && s->length) { c.nontrivial = true; sample("%dx%d with edges of at least %d pixels: %u lists", im.w, im.h, k, s->length); }
  if (s) at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// ---- C29: smooth shapes ----
MODE(round) {
  Rng &r = c.rng;
  double R = r.frange(9, r.p(0.2) ? 70 : 30), R2 = R * r.frange(0.7, 1.4), cx = R + r.frange(1, 4), cy = R2 + r.frange(1, 4);
  int np = r.p(0.5) ? 1 : 3;
  auto pal = gen_palette(r, 2, np);
  bool ring = r.p(0.25);
  double hole = ring ? r.frange(0.3, 0.8) : 0;
  if (hole * std::min(R, R2) < 8) hole = 0;
  Img im((int)(2 * R) + 8, (int)(2 * R2) + 8, np);
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
    double u = (x + 0.5 - cx) / R, v = (y + 0.5 - cy) / R2, d = sqrt(u * u + v * v);
    im.set(x, y, pal[d <= 1 && d >= hole ? 1 : 0]);
  }
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  o->background_color = at_color_new(pal[0].r, pal[0].g, pal[0].b);
  if (r.p(0.5)) o->filter_iterations = (unsigned)r.range(1, 8);
  if (r.p(0.5)) o->corner_surround = (unsigned)r.range(3, 8);
  if (r.p(0.5)) o->tangent_surround = (unsigned)r.range(3, 12);
  if (r.p(0.5)) o->error_threshold = (float)r.frange(1, r.p(0.2) ? 20 : 4);
  if (r.p(0.5)) o->line_threshold = (float)r.frange(0, 1.5);
  if (r.p(0.5)) o->line_reversion_threshold = (float)r.frange(0, 0.05);
  if (r.p(0.5)) o->corner_threshold = (float)r.frange(0, 100);
  if (r.p(0.5)) o->corner_always_threshold = (float)r.frange(0, 91);
  o->remove_adjacent_corners = r.p(0.3);
  print_opts(o);
  print_img(im, im.colors());
  say("R %g %g centre %g %g hole %g\n", R, R2, cx, cy, hole);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (!s) report("no-splines", "tracing returned no splines: %s", m.first);
  else if (s->length != (hole > 0 ? 2 : 1)) report("lists", "%u lists", s->length);
  for (unsigned i = 0; s && i < s->length && !reported_any(); i++) {
    const at_spline_list_type &l = s->data[i];
    double f = i ? hole : 1, allowed = o->error_threshold + 0.5;
    for (unsigned j = 0; j < l.length && !reported_any(); j++) {
      const at_spline_type &p = l.data[j], &q = l.data[(j + 1) % l.length];
      if (p.degree != AT_CUBICTYPE) { report("line-on-curve", "spline %u of %u is a line", j, l.length); break; }
      for (int k = 0; k <= 16; k++) {
        double t = k / 16.0, u = 1 - t;
        double x = u * u * u * p.v[0].x + 3 * u * u * t * p.v[1].x + 3 * u * t * t * p.v[2].x + t * t * t * p.v[3].x;
        double y = u * u * u * p.v[0].y + 3 * u * u * t * p.v[1].y + 3 * u * t * t * p.v[2].y + t * t * t * p.v[3].y;
        double d = fabs(sqrt((x - cx) * (x - cx) / R / R + (im.h - y - cy) * (im.h - y - cy) / R2 / R2) - f) * std::min(R, R2);
        if (d > allowed) { report("far-from-curve", "the outline is %.2f from the ellipse, allowed %.2f", d, allowed); break; }
      }
      double a1 = atan2(p.v[3].y - p.v[2].y, p.v[3].x - p.v[2].x), a2 = atan2(q.v[1].y - q.v[0].y, q.v[1].x - q.v[0].x), d = fabs(remainder(a2 - a1, 2 * M_PI)) * 180 / M_PI;
      if (d > 1) report("kink", "spline %u of %u ends in a bend of %.1f degrees", j, l.length, d);
      count("joints");
    }
  }
  if (s && s->length) { c.nontrivial = true; sample("ellipse %.1f x %.1f: %u splines", R, R2, s->data[0].length); }
  if (s) at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

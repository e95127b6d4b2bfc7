// Mode lines (C32): the line thresholds only decide which pieces are straight.
#include "geom.hpp"

struct Dev { double max, mean, len, plane; };
// how far the curve goes from its chord
static Dev deviation(const at_spline_type &s) {
  Dev d{0, 0, 0, 0};
  double A = s.v[3].x - s.v[0].x, B = s.v[3].y - s.v[0].y, C = s.v[3].z - s.v[0].z, l2 = A * A + B * B + C * C;
  d.len = sqrt(l2);
  d.plane = hypot(A, B);
  if (l2 == 0) return d;
  const int N = 64;
  for (int k = 0; k <= N; k++) {
    double t = (double)k / N, u = 1 - t, w0 = u * u * u, w1 = 3 * u * u * t, w2 = 3 * u * t * t, w3 = t * t * t;
    double a = w0 * s.v[0].x + w1 * s.v[1].x + w2 * s.v[2].x + w3 * s.v[3].x - s.v[0].x, b = w0 * s.v[0].y + w1 * s.v[1].y + w2 * s.v[2].y + w3 * s.v[3].y - s.v[0].y,
           e = w0 * s.v[0].z + w1 * s.v[1].z + w2 * s.v[2].z + w3 * s.v[3].z - s.v[0].z, w = (A * a + B * b + C * e) / l2;
    double q = sqrt((a - A * w) * (a - A * w) + (b - B * w) * (b - B * w) + (e - C * w) * (e - C * w));
    d.max = std::max(d.max, q);
    d.mean += q / N;
  }
  return d;
}
static bool same3(const at_real_coord &a, const at_real_coord &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

MODE(lines) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 80 : 36;
  g.maxcolors = 4;
  Img im;
  int kind = (int)r.u(4);
  if (kind == 0) im = gen_image(r, g);
  else if (kind == 1) im = gen_strokes(r, g, r.p(0.5), RGB{255, 255, 255});
  else {                         // slanted bars and discs: long straight and slightly bent pieces
    im = Img(r.range(12, g.maxdim), r.range(12, g.maxdim), r.p(0.5) ? 1 : 3);
    auto pal = gen_palette(r, 3, im.np);
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) im.set(x, y, pal[0]);
    for (int k = r.range(1, 3); k--;) {
      if (r.p(0.6)) draw_line(im, r.frange(0, im.w), r.frange(0, im.h), r.frange(0, im.w), r.frange(0, im.h), r.frange(2, 14), pal[1 + r.u(2)]);
      else draw_disc(im, r.frange(0, im.w), r.frange(0, im.h), r.frange(4, 30), r.frange(4, 30), pal[1 + r.u(2)]);
    }
  }
  at_fitting_opts_type *o = gen_opts(r, im);
  if (r.p(0.7)) { o->color_count = 0; o->despeckle_level = 0; }
  if (o->error_threshold < 0.4f) o->error_threshold = 1;
  // without corners every list lies between the same two corners
  bool whole = r.p(0.4);
  if (whole) { o->corner_threshold = o->corner_always_threshold = -1; if (r.p(0.5)) o->error_threshold = (float)r.frange(0.4, 1.2); }
  // no lines but between neighbouring points; then rising thresholds: reversion always, sometimes, never
  const int NV = 5;
  float T[NV] = {0}, R[NV] = {0, 0, 0, 1e9f, 1e9f};
  T[1] = T[2] = T[3] = (float)(r.p(0.5) ? r.frange(0, 0.8) : r.frange(0, 4));
  T[4] = T[3] + (float)r.frange(0, 2);
  R[2] = (float)(r.p(0.3) ? r.frange(0, 0.05) : r.p(0.5) ? r.frange(0, 0.5) : r.frange(0, 2));
  print_opts(o);
  print_img(im, im.colors());
  at_splines_type *s[NV];
  Msgs m;
  for (int k = 0; k < NV; k++) {
    at_bitmap *b = to_bitmap(im);
    o->line_threshold = T[k];
    o->line_reversion_threshold = R[k];
    s[k] = at_splines_new_full(b, o, msg_cb, &m, nullptr, nullptr, nullptr, nullptr);
    at_bitmap_free(b);
    if (!s[k]) report("no-splines", "tracing returned no splines: %s", m.first);
  }
  use_hash(im.hash()); use_hash(hash_opts(o));
  unsigned lines = 0, curves = 0, forced = 0, changed = 0;
  auto has_curve = [](const at_spline_list_type &l) { for (unsigned j = 0; j < l.length; j++) if (l.data[j].degree != AT_LINEARTYPE) return true; return false; };
  for (int k = 1; k < NV && !reported_any(); k++) {
    if (s[k]->length != s[0]->length) { report("lists-differ", "%u lists with line thresholds %g %g, %u with %g %g", s[0]->length, T[0], R[0], s[k]->length, T[k], R[k]); break; }
    for (unsigned i = 0; i < s[k]->length && !reported_any(); i++) {
      const at_spline_list_type &a = s[0]->data[i], &p = s[k - 1]->data[i], &b = s[k]->data[i];
      if (a.length != b.length || rgb(a.color) != rgb(b.color) || a.open != b.open || a.clockwise != b.clockwise) { report("lists-differ", "list %u differs in more than its lines with line thresholds %g %g and %g %g", i, T[0], R[0], T[k], R[k]); break; }
      bool beside = whole && k < 3 && s[3]->length == s[0]->length && has_curve(s[3]->data[i]), alone = whole && k < 3 && s[3]->length == s[0]->length && !has_curve(s[3]->data[i]);
      if (alone && has_curve(b)) { report("reverted-without-curve", "all pieces of list %u, which has no corners, are lines with line threshold %g, but not with reversion threshold %g", i, T[k], R[k]); break; }
      if (alone) count("whole_lists_of_lines");
      for (unsigned j = 0; j < b.length && !reported_any(); j++) {
        const at_spline_type &x = a.data[j], &y = b.data[j];
        if (!same3(x.v[0], y.v[0]) || !same3(x.v[3], y.v[3])) { report("ends-differ", "piece %u of list %u has other ends with line thresholds %g %g", j, i, T[k], R[k]); break; }
        if (y.degree == AT_CUBICTYPE && (!same3(x.v[1], y.v[1]) || !same3(x.v[2], y.v[2]))) { report("curve-differs", "piece %u of list %u is another curve with line thresholds %g %g", j, i, T[k], R[k]); break; }
        if (p.data[j].degree == AT_LINEARTYPE && y.degree != AT_LINEARTYPE) { report("line-becomes-curve", "piece %u of list %u is a line with line thresholds %g %g, a curve with %g %g", j, i, T[k - 1], R[k - 1], T[k], R[k]); break; }
        if (x.degree == AT_LINEARTYPE) { forced++; continue; }
        Dev d = deviation(x);
        double thr = std::min((double)T[k], d.len * d.len / 2);
        bool line = y.degree == AT_LINEARTYPE;
        double over = d.max * 1.02 + 0.002;            // at least the mean the thresholds are compared with
        const char *kept = nullptr;
        if (!line && k >= 3 && over < thr) kept = "line threshold";
        if (!line && k == 2 && over < R[2] && s[3]->data[i].data[j].degree == AT_LINEARTYPE) kept = "reversion threshold";
        if (kept) report("straight-curve-kept", "piece %u of list %u leaves its chord of %.2f by %.3f only, but is a curve with line thresholds %g %g (%s)", j, i, d.len, d.max, T[k], R[k], kept);
        if (line && d.plane >= 10) {  // long enough to have at least ten points
          if (d.mean > 1.6 * thr + 0.1) report("bent-line", "piece %u of list %u, %.2f from its chord of %.2f on average, is a line with line threshold %g", j, i, d.mean, d.len, T[k]);
          if (beside) {
            if (d.mean > 2.5 * R[k] + 0.2) report("line-not-reverted", "piece %u of list %u, %.2f from its chord of %.2f on average, stays a line beside curves with reversion threshold %g", j, i, d.mean, d.len, R[k]);
            count("lines_in_whole_lists_measured");
          }
          if (k == 2 && p.data[j].degree != AT_LINEARTYPE) {
            if (d.mean > 1.6 * R[2] + 0.1) report("line-not-reverted", "piece %u of list %u, %.2f from its chord of %.2f on average, stays a line beside curves with reversion threshold %g", j, i, d.mean, d.len, R[2]);
            count("lines_beside_curves_measured");
          }
          count("lines_measured");
        }
        if (line) lines++; else curves++;
        if (line != (p.data[j].degree == AT_LINEARTYPE)) changed++;
      }
    }
  }
  count("pieces_changed", changed);
  count("lines", lines);
  count("curves", curves);
  count("two_point_lines", forced);
  if (lines + curves) { c.nontrivial = true; sample("%dx%d, thresholds up to %g %g: %u lines, %u curves, %u changed", im.w, im.h, T[NV - 1], R[NV - 1], lines, curves, changed); }
  for (int k = 0; k < NV; k++) if (s[k]) at_splines_free(s[k]);
  at_fitting_opts_free(o);
}

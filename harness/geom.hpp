// Geometry shared by the tracing modes.
#pragma once
#include "vh.hpp"

struct P2 { double x, y; };
inline P2 bez(const at_spline_type &s, double t) {
  double u = 1 - t;
  if (s.degree == AT_LINEARTYPE) return P2{u * s.v[0].x + t * s.v[3].x, u * s.v[0].y + t * s.v[3].y};
  double a = u * u * u, b = 3 * u * u * t, c = 3 * u * t * t, d = t * t * t;
  return P2{a * s.v[0].x + b * s.v[1].x + c * s.v[2].x + d * s.v[3].x, a * s.v[0].y + b * s.v[1].y + c * s.v[2].y + d * s.v[3].y};
}
// The list as a polygon (without repeating the first point at the end).
inline std::vector<P2> flatten(const at_spline_list_type &l, int steps = 24) {
  std::vector<P2> p;
  for (unsigned i = 0; i < l.length; i++) {
    const at_spline_type &s = l.data[i];
    if (i == 0) p.push_back(P2{s.v[0].x, s.v[0].y});
    int n = s.degree == AT_LINEARTYPE ? 1 : steps;
    for (int k = 1; k <= n; k++) p.push_back(bez(s, (double)k / n));
  }
  return p;
}
inline double seg_dist(P2 a, P2 b, double x, double y) {
  double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((x - a.x) * dx + (y - a.y) * dy) / l2 : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  double ex = x - a.x - t * dx, ey = y - a.y - t * dy;
  return sqrt(ex * ex + ey * ey);
}
inline double path_dist(const std::vector<P2> &p, bool closed, double x, double y) {
  double best = 1e30;
  size_t n = p.size();
  if (n == 1) return hypot(p[0].x - x, p[0].y - y);
  for (size_t i = 0; i + 1 < n + (closed ? 1 : 0); i++) best = std::min(best, seg_dist(p[i], p[(i + 1) % n], x, y));
  return best;
}
// winding number of the closed polygon around a point
inline int winding(const std::vector<P2> &p, double x, double y) {
  int w = 0;
  for (size_t i = 0; i < p.size(); i++) {
    P2 a = p[i], b = p[(i + 1) % p.size()];
    if ((a.y <= y) != (b.y <= y)) {
      double t = (y - a.y) / (b.y - a.y);
      if (a.x + t * (b.x - a.x) > x) w += b.y > a.y ? 1 : -1;
    }
  }
  return w;
}
inline double poly_area(const std::vector<P2> &p) {
  double a = 0;
  for (size_t i = 0; i < p.size(); i++) { P2 q = p[i], r = p[(i + 1) % p.size()]; a += q.x * r.y - r.x * q.y; }
  return a / 2;
}
inline RGB rgb(const at_color &c) { return RGB{c.r, c.g, c.b}; }
inline at_color *new_color(RGB c) { return at_color_new(c.r, c.g, c.b); }

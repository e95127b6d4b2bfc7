#include "vh.hpp"

std::vector<RGB> Img::colors() const {
  std::vector<RGB> v;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) v.push_back(at(x, y));
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
uint64_t Img::hash() const {
  uint64_t k = hash_bytes(&w, sizeof w);
  k = hash_bytes(&h, sizeof h, k);
  k = hash_bytes(&np, sizeof np, k);
  return hash_bytes(px.data(), px.size(), k);
}
at_bitmap *to_bitmap(const Img &im) {
  at_bitmap *b = at_bitmap_new((unsigned short)im.w, (unsigned short)im.h, (unsigned)im.np);
  for (size_t i = 0; i < im.px.size(); i++) b->bitmap[i] = im.px[i];
  return b;
}
Img from_bitmap(const at_bitmap *b) {
  Img im(b->width, b->height, (int)b->np);
  for (size_t i = 0; i < im.px.size(); i++) im.px[i] = b->bitmap[i];
  return im;
}
void print_img(const Img &im, const std::vector<RGB> &pal) {
  if (!g_ctx->verbose) return;
  for (int y = 0; y < im.h; y++) {
    for (int x = 0; x < im.w; x++) {
      int k = -1;
      for (size_t i = 0; i < pal.size(); i++) if (pal[i] == im.at(x, y)) k = (int)i;
      fputc(k < 0 ? '?' : k < 10 ? '0' + k : k < 36 ? 'a' + k - 10 : '*', stderr);
    }
    fputc('\n', stderr);
  }
}

std::vector<RGB> gen_palette(Rng &r, int n, int np) {
  std::vector<RGB> v;
  int style = (int)r.u(7);
  int guard = 0;
  while ((int)v.size() < n && guard++ < 10000) {
    RGB c;
    if (np == 1) {
      unsigned char g = style == 0 ? (v.empty() ? 255 : v.size() == 1 ? 0 : (unsigned char)r.u(256)) : (unsigned char)r.u(256);
      c = RGB{g, g, g};
    } else if (style == 0) {
      if (v.empty()) c = RGB{255, 255, 255};
      else if (v.size() == 1) c = RGB{0, 0, 0};
      else c = RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
    } else if (style == 1) {   // differ in one channel only
      if (v.empty()) c = RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
      else {
        c = v[r.u((uint32_t)v.size())];
        unsigned char d = (unsigned char)r.range(1, 255);
        switch (r.u(3)) { case 0: c.r = (unsigned char)(c.r + d); break; case 1: c.g = (unsigned char)(c.g + d); break; default: c.b = (unsigned char)(c.b + d); }
      }
    } else if (style == 2 && !v.empty()) {   // easily taken for another one of them
      c = v[r.u((uint32_t)v.size())];
      unsigned char *p[3] = {&c.r, &c.g, &c.b};
      switch (r.u(4)) {
      case 0: {                 // of the same luminance
        double want = c.r * 0.30 + c.g * 0.59 + c.b * 0.11;
        int red = c.r + r.range(-60, 60), blue = c.b + r.range(-60, 60), green = (int)((want - red * 0.30 - blue * 0.11) / 0.59 + 0.5);
        if (red >= 0 && red < 256 && blue >= 0 && blue < 256 && green >= 0 && green < 256) c = RGB{(unsigned char)red, (unsigned char)green, (unsigned char)blue};
        break;
      }
      case 1: { unsigned i = r.u(3); std::swap(*p[i], *p[(i + 1) % 3]); break; }
      case 2: { unsigned char *q = p[r.u(3)]; *q = (unsigned char)(*q ^ (1u << r.u(8))); break; }
      default: for (auto q : p) *q = (unsigned char)std::min(255, std::max(0, *q + r.range(-2, 2)));
      }
    } else c = RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
    if (std::find(v.begin(), v.end(), c) == v.end()) v.push_back(c);
  }
  return v;
}
void draw_disc(Img &im, double cx, double cy, double rx, double ry, RGB c) {
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
    double dx = (x - cx) / (rx > 0.1 ? rx : 0.1), dy = (y - cy) / (ry > 0.1 ? ry : 0.1);
    if (dx * dx + dy * dy <= 1) im.set(x, y, c);
  }
}
void draw_line(Img &im, double x0, double y0, double x1, double y1, double width, RGB c) {
  double dx = x1 - x0, dy = y1 - y0, l2 = dx * dx + dy * dy;
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
    double t = l2 > 0 ? ((x - x0) * dx + (y - y0) * dy) / l2 : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    double ex = x - x0 - t * dx, ey = y - y0 - t * dy;
    if (ex * ex + ey * ey <= width * width / 4 + 1e-9) im.set(x, y, c);
  }
}
static void fill_rect(Img &im, int x0, int y0, int x1, int y1, RGB c) {
  for (int y = std::max(0, y0); y <= y1 && y < im.h; y++) for (int x = std::max(0, x0); x <= x1 && x < im.w; x++) im.set(x, y, c);
}
Img gen_strokes(Rng &r, const GenOpt &o, bool have_bg, RGB bg) {
  int np = o.np ? o.np : (r.p(0.4) ? 1 : 3);
  Img im(r.range(3, o.maxdim), r.range(3, o.maxdim), np);
  int nc = r.range(1, std::max(1, std::min(4, o.maxcolors - 1)));
  std::vector<RGB> pal = gen_palette(r, nc + 1, np);
  if (have_bg) {
    pal[0] = bg;
    for (size_t i = 1; i < pal.size(); i++) if (pal[i] == bg) pal[i] = np == 1 ? RGB{(unsigned char)(bg.r + 1), (unsigned char)(bg.r + 1), (unsigned char)(bg.r + 1)} : RGB{(unsigned char)(bg.r + 1), bg.g, bg.b};
  }
  for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) im.set(x, y, pal[0]);
  int n = r.range(1, 6);
  for (int i = 0; i < n; i++) {
    RGB c = pal[1 + r.u((uint32_t)pal.size() - 1)];
    double w = r.p(0.4) ? 1 : r.frange(1, 6);
    switch (r.u(5)) {
      case 0: case 1: draw_line(im, r.frange(0, im.w - 1), r.frange(0, im.h - 1), r.frange(0, im.w - 1), r.frange(0, im.h - 1), w, c); break;
      case 2: {
        int y = r.range(0, im.h - 1);
        draw_line(im, 0, y, im.w - 1, y, w, c);
        break;
      }
      case 3: {   // ring
        double cx = r.frange(0, im.w - 1), cy = r.frange(0, im.h - 1), rad = r.frange(1, im.w / 2.0);
        int k = 24;
        for (int j = 0; j < k; j++) {
          double a = 2 * M_PI * j / k, b = 2 * M_PI * (j + 1) / k;
          draw_line(im, cx + rad * cos(a), cy + rad * sin(a), cx + rad * cos(b), cy + rad * sin(b), w, c);
        }
        break;
      }
      default: draw_disc(im, r.frange(0, im.w - 1), r.frange(0, im.h - 1), r.frange(0.5, 5), r.frange(0.5, 5), c);
    }
  }
  return im;
}
Img gen_image(Rng &r, const GenOpt &o) {
  int np = o.np ? o.np : (r.p(0.35) ? 1 : 3);
  int md = o.maxdim;
  int w, h;
  switch (r.u(8)) {
    case 0: w = r.range(1, 3); h = r.range(1, md); break;
    case 1: w = r.range(1, md); h = r.range(1, 3); break;
    case 2: w = r.range(1, 6); h = r.range(1, 6); break;
    default: w = r.range(4, md); h = r.range(4, md);
  }
  int kind = (int)r.u(15);
  if (kind == 13) { GenOpt p = o; p.np = np; return gen_strokes(r, p, false, RGB{0, 0, 0}); }
  Img im(w, h, np);
  int nc = r.range(2, std::max(2, o.maxcolors));
  if (r.p(0.35)) nc = 2;
  std::vector<RGB> pal = gen_palette(r, nc, np);
  nc = (int)pal.size();
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.set(x, y, pal[0]);
  auto col = [&]() { return pal[r.u((uint32_t)nc)]; };
  auto fg = [&]() { return pal[1 + r.u((uint32_t)nc - 1)]; };
  switch (kind) {
    case 0: break;                                                        // solid
    case 1: for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.set(x, y, col()); break;
    case 2: case 3: {
      int n = r.range(1, 8);
      for (int i = 0; i < n; i++) {
        int x0 = r.range(-2, w - 1), y0 = r.range(-2, h - 1);
        fill_rect(im, x0, y0, x0 + r.range(0, w), y0 + r.range(0, h), col());
      }
      break;
    }
    case 4: case 5: {
      int n = r.range(1, 5);
      for (int i = 0; i < n; i++) {
        double cx = r.frange(0, w), cy = r.frange(0, h), rx = r.frange(0.5, w / 1.8), ry = r.frange(0.5, h / 1.8);
        draw_disc(im, cx, cy, rx, ry, fg());
        if (r.p(0.5)) draw_disc(im, cx, cy, rx * r.f(), ry * r.f(), col());
      }
      break;
    }
    case 6: {                                                             // checkerboard
      int s = r.range(1, 4);
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.set(x, y, pal[(size_t)((x / s + y / s) % nc)]);
      break;
    }
    case 7: {                                                             // gradient
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        unsigned char a = (unsigned char)(255 * x / std::max(1, w - 1)), b = (unsigned char)(255 * y / std::max(1, h - 1));
        if (o.maxcolors < 64) im.set(x, y, pal[(size_t)((x * nc / w + (y > h / 2)) % nc)]);
        else im.set(x, y, np == 1 ? RGB{a, a, a} : RGB{a, b, (unsigned char)(a ^ b)});
      }
      break;
    }
    case 8: {                                                             // random walk
      int x = r.range(0, w - 1), y = r.range(0, h - 1);
      RGB c = fg();
      for (int i = 0; i < w * h; i++) {
        im.set(x, y, c);
        switch (r.u(4)) { case 0: x++; break; case 1: x--; break; case 2: y++; break; default: y--; }
        x = (x + w) % w; y = (y + h) % h;
        if (r.p(0.02)) c = fg();
      }
      break;
    }
    case 9: case 10: {                                                    // smoothed noise
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.set(x, y, col());
      int it = r.range(1, 4);
      for (int k = 0; k < it; k++) {
        Img b = im;
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
          int best = 0; RGB bc = im.at(x, y);
          for (size_t p = 0; p < pal.size(); p++) {
            int n = 0;
            for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
              int xx = x + dx, yy = y + dy;
              if (xx >= 0 && yy >= 0 && xx < w && yy < h && im.at(xx, yy) == pal[p]) n++;
            }
            if (n > best) { best = n; bc = pal[p]; }
          }
          b.set(x, y, bc);
        }
        im = b;
      }
      break;
    }
    case 11: {                                                            // nested frames
      int t = 0, k = 0;
      while (t < w / 2 + 1 && t < h / 2 + 1) {
        fill_rect(im, t, t, w - 1 - t, h - 1 - t, pal[(size_t)(k++ % nc)]);
        t += r.range(1, 4);
      }
      break;
    }
    case 12: {                                                            // dots and diagonals
      int n = r.range(1, w * h / 4 + 1);
      for (int i = 0; i < n; i++) im.set(r.range(0, w - 1), r.range(0, h - 1), fg());
      if (r.p(0.5)) for (int i = 0; i < std::min(w, h); i++) im.set(i, i, fg());
      break;
    }
    default: {                                                            // vertical/horizontal stripes
      int s = r.range(1, 5); bool v = r.p(0.5);
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.set(x, y, pal[(size_t)(((v ? x : y) / s) % nc)]);
    }
  }
  // sprinkle
  if (r.p(0.25)) {
    int n = r.range(1, 6);
    for (int i = 0; i < n; i++) im.set(r.range(0, w - 1), r.range(0, h - 1), col());
  }
  return im;
}

int label(const Img &im, int conn, std::vector<int> &lab) {
  int w = im.w, h = im.h, n = 0;
  lab.assign((size_t)w * h, -1);
  std::vector<int> st;
  for (int i = 0; i < w * h; i++) {
    if (lab[(size_t)i] >= 0) continue;
    RGB c = im.at(i % w, i / w);
    lab[(size_t)i] = n;
    st.push_back(i);
    while (!st.empty()) {
      int k = st.back();
      st.pop_back();
      int x = k % w, y = k / w;
      for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
        if (conn == 4 && dx && dy) continue;
        int xx = x + dx, yy = y + dy;
        if (xx < 0 || yy < 0 || xx >= w || yy >= h) continue;
        size_t j = (size_t)yy * w + xx;
        if (lab[j] < 0 && im.at(xx, yy) == c) { lab[j] = n; st.push_back((int)j); }
      }
    }
    n++;
  }
  return n;
}

at_fitting_opts_type *gen_opts(Rng &r, const Img &im) {
  at_fitting_opts_type *o = at_fitting_opts_new();
  if (r.p(0.5)) {
    RGB c = (im.w && im.h && r.p(0.9)) ? im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h)) : RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
    o->background_color = at_color_new(c.r, c.g, c.b);
  }
  if (r.p(0.35)) o->color_count = r.p(0.7) ? (unsigned)r.range(1, 8) : (unsigned)r.range(1, 256);
  if (r.p(0.4)) o->corner_always_threshold = (float)(r.p(0.2) ? 0 : r.frange(0, 180));
  if (r.p(0.4)) o->corner_surround = (unsigned)(r.p(0.1) ? r.range(20, 200) : r.range(0, 8));
  if (r.p(0.4)) o->corner_threshold = (float)r.frange(0, 180);
  if (r.p(0.5)) o->error_threshold = (float)(r.p(0.15) ? 0 : r.p(0.5) ? r.frange(0.01, 2) : r.frange(0.5, 12));
  if (r.p(0.5)) o->filter_iterations = (unsigned)r.range(0, 8);
  if (r.p(0.4)) o->line_reversion_threshold = (float)(r.p(0.3) ? 0 : r.frange(0, 2));
  if (r.p(0.4)) o->line_threshold = (float)(r.p(0.3) ? 0 : r.frange(0, 4));
  o->remove_adjacent_corners = r.p(0.3);
  o->remove_knees = r.p(0.3);
  if (r.p(0.4)) o->tangent_surround = (unsigned)(r.p(0.1) ? r.range(10, 100) : r.range(0, 8));
  if (r.p(0.3)) o->despeckle_level = (unsigned)r.range(0, 20);
  if (r.p(0.4)) o->despeckle_tightness = (float)r.frange(0, 8);
  if (r.p(0.4)) o->noise_removal = (float)(r.p(0.3) ? 1.0 : r.frange(0, 1));
  o->centerline = r.p(0.35);
  o->preserve_width = r.p(0.3);
  if (r.p(0.5)) o->width_weight_factor = (float)r.frange(0, 10);
  unpoison(o, sizeof *o);
  return o;
}
void print_opts(const at_fitting_opts_type *o) {
  say("opts bg=%s", o->background_color ? "" : "none");
  if (o->background_color) say("%02x%02x%02x", o->background_color->r, o->background_color->g, o->background_color->b);
  say(" cc=%u ca=%g cs=%u ct=%g err=%g filt=%u lrev=%g lth=%g adj=%d knees=%d ts=%u desp=%u tight=%g noise=%g center=%d pw=%d wwf=%g\n", o->color_count,
      o->corner_always_threshold, o->corner_surround, o->corner_threshold, o->error_threshold, o->filter_iterations, o->line_reversion_threshold, o->line_threshold,
      o->remove_adjacent_corners, o->remove_knees, o->tangent_surround, o->despeckle_level, o->despeckle_tightness, o->noise_removal, o->centerline, o->preserve_width, o->width_weight_factor);
}
template <class T> static uint64_t hv(const T &v, uint64_t h) { return hash_bytes(&v, sizeof v, h); }
uint64_t hash_opts(const at_fitting_opts_type *o) {
  uint64_t h = hv(o->color_count, 7);
  if (o->background_color) { h = hv(o->background_color->r, h); h = hv(o->background_color->g, h); h = hv(o->background_color->b, h); }
  else h = hv(1, h);
  h = hv(o->charcode, h); h = hv(o->corner_always_threshold, h); h = hv(o->corner_surround, h); h = hv(o->corner_threshold, h);
  h = hv(o->error_threshold, h); h = hv(o->filter_iterations, h); h = hv(o->line_reversion_threshold, h); h = hv(o->line_threshold, h);
  h = hv(o->remove_adjacent_corners, h); h = hv(o->remove_knees, h); h = hv(o->tangent_surround, h); h = hv(o->despeckle_level, h);
  h = hv(o->despeckle_tightness, h); h = hv(o->noise_removal, h); h = hv(o->centerline, h); h = hv(o->preserve_width, h);
  return hv(o->width_weight_factor, h);
}
static int npts(const at_spline_type *s) { (void)s; return 4; }
static bool uses(const at_spline_type *s, int i) { return s->degree == AT_CUBICTYPE || i == 0 || i == 3; }
uint64_t hash_splines(const at_splines_type *s) {
  if (!s) return 42;
  uint64_t h = hv(s->length, 11);
  h = hv(s->width, h); h = hv(s->height, h); h = hv(s->centerline, h); h = hv(s->preserve_width, h); h = hv(s->width_weight_factor, h);
  if (s->background_color) { h = hv(s->background_color->r, h); h = hv(s->background_color->g, h); h = hv(s->background_color->b, h); }
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type *l = &s->data[i];
    h = hv(l->length, h); h = hv(l->clockwise, h); h = hv(l->open, h);
    h = hv(l->color.r, h); h = hv(l->color.g, h); h = hv(l->color.b, h);
    for (unsigned j = 0; j < l->length; j++) {
      const at_spline_type *p = &l->data[j];
      h = hv(p->degree, h);
      for (int k = 0; k < npts(p); k++) if (uses(p, k)) { h = hv(p->v[k].x, h); h = hv(p->v[k].y, h); h = hv(p->v[k].z, h); }
    }
  }
  return h;
}
at_splines_type *splines_deep_copy(const at_splines_type *s) {
  if (!s) return nullptr;
  at_splines_type *n = (at_splines_type *)calloc(1, sizeof *n);
  *n = *s;
  if (s->background_color) { n->background_color = (at_color *)malloc(sizeof(at_color)); *n->background_color = *s->background_color; }
  n->data = (at_spline_list_type *)calloc(s->length + 1, sizeof *n->data);
  for (unsigned i = 0; i < s->length; i++) {
    n->data[i] = s->data[i];
    n->data[i].data = (at_spline_type *)calloc(s->data[i].length + 1, sizeof(at_spline_type));
    for (unsigned j = 0; j < s->data[i].length; j++) n->data[i].data[j] = s->data[i].data[j];
  }
  return n;
}
void splines_deep_free(at_splines_type *s) {
  if (!s) return;
  for (unsigned i = 0; i < s->length; i++) free(s->data[i].data);
  free(s->data);
  free(s->background_color);
  free(s);
}
bool splines_same(const at_splines_type *a, const at_splines_type *b, bool colors, char *why, size_t n) {
#define DIFF(...) do { snprintf(why, n, __VA_ARGS__); return false; } while (0)
  if (!a || !b) { if (a == b) return true; DIFF("one result is NULL (%d,%d)", a != 0, b != 0); }
  if (a->length != b->length) DIFF("%u lists against %u", a->length, b->length);
  if (a->width != b->width || a->height != b->height) DIFF("frame differs");
  if (a->centerline != b->centerline || a->preserve_width != b->preserve_width || a->width_weight_factor != b->width_weight_factor) DIFF("inherited options differ");
  if (!a->background_color != !b->background_color) DIFF("background present in one only");
  if (colors && a->background_color && memcmp(a->background_color, b->background_color, sizeof(at_color))) DIFF("background differs");
  for (unsigned i = 0; i < a->length; i++) {
    const at_spline_list_type *x = &a->data[i], *y = &b->data[i];
    if (x->length != y->length) DIFF("list %u: %u splines against %u", i, x->length, y->length);
    if (x->clockwise != y->clockwise || x->open != y->open) DIFF("list %u: flags differ", i);
    if (colors && (x->color.r != y->color.r || x->color.g != y->color.g || x->color.b != y->color.b)) DIFF("list %u: colours differ", i);
    for (unsigned j = 0; j < x->length; j++) {
      if (x->data[j].degree != y->data[j].degree) DIFF("list %u spline %u: degree differs", i, j);
      for (int k = 0; k < 4; k++) if (uses(&x->data[j], k)) {
        const at_real_coord *p = &x->data[j].v[k], *q = &y->data[j].v[k];
        if (memcmp(&p->x, &q->x, 4) || memcmp(&p->y, &q->y, 4) || memcmp(&p->z, &q->z, 4)) DIFF("list %u spline %u point %d: (%g,%g,%g) against (%g,%g,%g)", i, j, k, p->x, p->y, p->z, q->x, q->y, q->z);
      }
    }
  }
  return true;
#undef DIFF
}

// Modes that trace bitmaps: trace (C04), shape (C05), ...
#include "vh.hpp"

static Img image_for(Ctx &c, int small, int big) {
  GenOpt o;
  o.maxdim = c.rng.p(c.thorough ? 0.25 : 0.12) ? big : small;
  o.maxcolors = c.rng.p(0.15) ? 40 : 6;
  return gen_image(c.rng, o);
}

// ---- C04: any bitmap, any options ----
static void prog_cb(float v, void *d) { (*(std::vector<float> *)d).push_back(v); }
struct Cancel { long calls = 0, at = -1; bool sticky = true; };
static bool cancel_cb(void *d) {
  Cancel *k = (Cancel *)d;
  long n = k->calls++;
  return k->at >= 0 && (k->sticky ? n >= k->at : n == k->at);
}
MODE(trace) {
  Img im;
  switch (c.rng.u(20)) {
    case 0: {   // degenerate sizes
      int w = c.rng.range(0, 2), h = c.rng.range(0, 2);
      im = Img(w, h, c.rng.p(0.5) ? 1 : 3);
      for (auto &b : im.px) b = (unsigned char)(c.rng.p(0.5) ? 0 : c.rng.p(0.5) ? 255 : c.rng.u(256));
      break;
    }
    case 1: {   // other plane counts
      im = Img(c.rng.range(1, 8), c.rng.range(1, 8), c.rng.p(0.5) ? 2 : 4);
      for (auto &b : im.px) b = (unsigned char)(c.rng.p(0.5) ? 0 : 255);
      break;
    }
    case 2: {   // long and thin
      bool v = c.rng.p(0.5);
      int n = c.rng.range(200, c.thorough ? 3000 : 800), m = c.rng.range(1, 4);
      if (c.rng.p(0.04)) { n = c.rng.range(32760, 65535); m = c.rng.range(1, 2); }
      im = Img(v ? m : n, v ? n : m, c.rng.p(0.5) ? 1 : 3);
      int run = c.rng.range(1, 100);
      unsigned char cur = 0;
      for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
        if (c.rng.u((uint32_t)run) == 0) cur = (unsigned char)~cur;
        im.set(x, y, RGB{cur, cur, cur});
      }
      break;
    }
    default: im = image_for(c, 40, c.thorough ? 160 : 100);
  }
  bool winding = c.idx % 2000 == 1999;
  if (winding) {   // one narrow line winding through a large image
    bool v = c.rng.p(0.5);
    int n = c.rng.range(500, 900);
    im = Img(n, n, c.rng.p(0.5) ? 1 : 3);
    for (auto &b : im.px) b = 255;
    for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) {
      int a = v ? x : y, b = v ? y : x;
      if (a % 2 == 0 || b == (a % 4 == 1 ? n - 1 : 0)) im.set(x, y, RGB{0, 0, 0});
    }
  }
  at_fitting_opts_type *o = gen_opts(c.rng, im);
  if (im.np == 2 || im.np == 4) o->color_count = c.rng.p(0.5) ? 0 : o->color_count;
  if (winding) { o->centerline = false; o->color_count = 1; o->despeckle_level = (unsigned)c.rng.range(1, 3); }   // one colour, so that fitting is no effort
  if (im.w > 5000 || im.h > 5000) { o->corner_surround = std::min(o->corner_surround, 8u); o->tangent_surround = std::min(o->tangent_surround, 8u); o->filter_iterations = std::min(o->filter_iterations, 1u); }
  say("%dx%dx%d\n", im.w, im.h, im.np);
  print_opts(o);
  if (im.w < 200 && im.h < 200 && im.w && im.h && im.np != 2 && im.np != 4) { auto pal = im.colors(); print_img(im, pal); }
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  std::vector<float> pr;
  Cancel k;
  bool use_p = c.rng.p(0.5), use_c = c.rng.p(0.5);
  if (use_c && c.rng.p(0.4)) { k.at = c.rng.range(0, im.w * im.h + 20); k.sticky = c.rng.p(0.5); }
  at_splines_type *s = at_splines_new_full(b, o, msg_cb, &m, use_p ? prog_cb : nullptr, use_p ? (void *)&pr : nullptr, use_c ? cancel_cb : nullptr, use_c ? (void *)&k : nullptr);
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (s) {
    use_hash(hash_splines(s));   // reads everything, so that uninitialised or freed results are noticed
    count("spline_lists", s->length);
    if (s->length) c.nontrivial = true;
    at_splines_free(s);
  } else {
    if (k.at < 0 && !m.fatal) report("null-without-reason", "no splines, no fatal message, not cancelled");
    count(m.fatal ? "traces_refused" : "traces_cancelled");
  }
  volatile unsigned sum = 0;
  for (size_t i = 0; i < (size_t)b->width * b->height * b->np; i++) sum += b->bitmap[i];
  if (!all_initialised(b->bitmap, (size_t)b->width * b->height * b->np)) report("uninitialised-bitmap", "the processed bitmap has uninitialised pixels");
  count("pixels_traced", im.w * im.h);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// Modes about colour reduction (C09), despeckling (C10), cancelling (C11) and progress (C12).
#include "geom.hpp"

static at_splines_type *trace(at_bitmap *b, at_fitting_opts_type *o, Msgs *m) {
  return at_splines_new_full(b, o, msg_cb, m, nullptr, nullptr, nullptr, nullptr);
}
static bool has(const std::vector<RGB> &v, RGB c) { return std::find(v.begin(), v.end(), c) != v.end(); }
static int sq(int v) { return v * v; }

// ---- C09 ----
MODE(quant) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 60 : 24;
  g.np = r.p(0.35) ? 1 : 3;
  int N = r.p(0.6) ? r.range(1, 8) : r.p(0.5) ? r.range(1, 40) : r.range(1, 256);
  g.maxcolors = r.p(0.4) ? 4 : r.p(0.5) ? 40 : 300;
  Img im;
  int kind = (int)r.u(5);
  if (kind == 0) {   // noise over the whole gamut
    im = Img(r.range(1, g.maxdim), r.range(1, g.maxdim), g.np);
    for (auto &b : im.px) b = (unsigned char)r.u(256);
  } else if (kind == 1) {   // clusters
    im = Img(r.range(2, g.maxdim), r.range(2, g.maxdim), g.np);
    auto cen = gen_palette(r, r.range(1, 10), g.np);
    int sp = r.range(0, 20);
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
      RGB k = cen[r.u((uint32_t)cen.size())];
      auto j = [&](unsigned char v) { int q = v + r.range(-sp, sp); return (unsigned char)(q < 0 ? 0 : q > 255 ? 255 : q); };
      im.set(x, y, RGB{j(k.r), j(k.g), j(k.b)});
    }
  } else if (kind == 2) {   // gradient
    im = Img(r.range(2, g.maxdim), r.range(2, g.maxdim), g.np);
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) im.set(x, y, RGB{(unsigned char)(255 * x / im.w), (unsigned char)(255 * y / im.h), (unsigned char)((x * y) & 255)});
  } else im = gen_image(r, g);
  auto before = im.colors();
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  o->color_count = (unsigned)N;
  o->error_threshold = 6;
  bool have_bg = r.p(0.45);
  RGB bg{0, 0, 0};
  if (have_bg) { bg = im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h)); o->background_color = at_color_new(bg.r, bg.g, bg.b); }
  say("%dx%dx%d N=%d kind %d, %zu colours, bg %d %06x\n", im.w, im.h, im.np, N, kind, before.size(), have_bg, bg.code());
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash((uint64_t)N); use_hash(have_bg ? bg.code() : 0xffffffff);
  if (!s) { report("no-splines", "%s", m.first); at_bitmap_free(b); at_fitting_opts_free(o); return; }
  if (b->width != im.w || b->height != im.h || (int)b->np != im.np) { report("size-changed", "bitmap is %ux%ux%u", b->width, b->height, b->np); at_splines_free(s); at_bitmap_free(b); at_fitting_opts_free(o); return; }
  Img q = from_bitmap(b);
  auto after = q.colors();
  if ((int)after.size() > N) report("too-many-colours", "%zu colours remain of %zu with a colour count of %d", after.size(), before.size(), N);
  // mapping
  std::vector<int> to(before.size(), -1);
  for (int y = 0; y < im.h && !reported_any(); y++) for (int x = 0; x < im.w; x++) {
    size_t i = (size_t)(std::lower_bound(before.begin(), before.end(), im.at(x, y)) - before.begin());
    int j = (int)(std::lower_bound(after.begin(), after.end(), q.at(x, y)) - after.begin());
    if (to[i] < 0) to[i] = j;
    else if (to[i] != j) { report("inconsistent", "pixels of colour %06x became %06x and %06x", before[i].code(), after[(size_t)to[i]].code(), after[(size_t)j].code()); break; }
  }
  if (!reported_any()) {
    // cells of two levels in each channel
    std::vector<uint32_t> cells;
    for (auto k : before) cells.push_back(RGB{(unsigned char)(k.r / 2), (unsigned char)(k.g / 2), (unsigned char)(k.b / 2)}.code());
    std::sort(cells.begin(), cells.end());
    cells.erase(std::unique(cells.begin(), cells.end()), cells.end());
    bool few = (int)cells.size() <= N;
    int lim = 2;
    for (size_t i = 0; i < before.size() && !reported_any(); i++) {
      RGB k = before[i], z = after[(size_t)to[i]];
      if (have_bg && k == bg && z != bg) report("background-changed", "the background colour %06x became %06x", k.code(), z.code());
      if (few && !(have_bg && z == bg) && (abs(k.r - z.r) > lim || abs(k.g - z.g) > lim || abs(k.b - z.b) > lim)) report("few-colours-changed", "%zu colours and a colour count of %d: %06x became %06x", before.size(), N, k.code(), z.code());
      if (few && have_bg && z == bg && k != bg && (abs(k.r - z.r) > lim || abs(k.g - z.g) > lim || abs(k.b - z.b) > lim)) report("foreground-lost", "%zu colours and a colour count of %d: %06x became the background %06x", before.size(), N, k.code(), z.code());
      // no other remaining colour is nearer
      if (have_bg && z == bg) continue;
      double dz = 4 * sq(k.r - z.r) + 9 * sq(k.g - z.g) + sq(k.b - z.b);
      for (auto u : after) {
        if (u == z || (have_bg && u == bg)) continue;
        double du = 4 * sq(k.r - u.r) + 9 * sq(k.g - u.g) + sq(k.b - u.b);
        if (sqrt(dz) > sqrt(du) + 8 && abs(k.r - u.r) <= abs(k.r - z.r) && abs(k.g - u.g) <= abs(k.g - z.g) && abs(k.b - u.b) <= abs(k.b - z.b)) { report("not-nearest", "%06x became %06x although %06x is nearer in every channel", k.code(), z.code(), u.code()); break; }
        if (sqrt(dz) > 1.05 * sqrt(du) + 8) { report("not-nearest", "%06x became %06x although %06x is nearer", k.code(), z.code(), u.code()); break; }
      }
    }
    if (!few && !have_bg && N >= 2 && after.size() == 1 && before.size() > 1 && cells.size() > 1) report("one-colour-left", "%zu colours with a colour count of %d became one", before.size(), N);
    // the mean of the image does not drift: each colour stands for the mean of what was merged into it
    if (!have_bg) {
      for (size_t j = 0; j < after.size() && !reported_any(); j++) {
        int lo[3] = {255, 255, 255}, hi[3] = {0, 0, 0}; bool any = false;
        for (size_t i = 0; i < before.size(); i++) if (to[i] == (int)j) {
          any = true;
          int v[3] = {before[i].r, before[i].g, before[i].b};
          for (int n = 0; n < 3; n++) { lo[n] = std::min(lo[n], v[n]); hi[n] = std::max(hi[n], v[n]); }
        }
        (void)any;
        if (N == 1) {
          int v[3] = {after[j].r, after[j].g, after[j].b};
          for (int n = 0; n < 3; n++) if (v[n] < lo[n] - 2 || v[n] > hi[n] + 2) { report("mean-outside", "all pixels became %06x, outside of the range of colours", after[j].code()); break; }
        }
      }
      if (N == 1 && !reported_any()) {
        double sum[3] = {0, 0, 0};
        for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) { RGB k = im.at(x, y); sum[0] += k.r; sum[1] += k.g; sum[2] += k.b; }
        double n = (double)im.w * im.h;
        if (fabs(sum[0] / n - after[0].r) > 2.5 || fabs(sum[1] / n - after[0].g) > 2.5 || fabs(sum[2] / n - after[0].b) > 2.5) report("not-mean", "a colour count of 1 gave %06x, mean is (%.1f,%.1f,%.1f)", after[0].code(), sum[0] / n, sum[1] / n, sum[2] / n);
      }
    }
    if (before.size() > after.size()) count("reduced_images");
    if (few) count("few_colour_images");
  }
  for (unsigned i = 0; i < s->length && !reported_any(); i++) if (!has(after, rgb(s->data[i].color))) report("list-colour", "list %u has colour %06x which is not in the bitmap", i, rgb(s->data[i].color).code());
  count("colours_before", (double)before.size());
  count("colours_after", (double)after.size());
  c.nontrivial = before.size() > 1;
  if (c.nontrivial) sample("%dx%dx%d N=%d: %zu -> %zu colours%s", im.w, im.h, im.np, N, before.size(), after.size(), have_bg ? " with background" : "");
  at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// ---- C10 ----
static double limit_at(int i, int L, double tight, double noise) {
  double at = (noise * (1.0 + tight * L) - 1.0) / L;
  return noise * 255.0 / (1.0 + at * i);
}
MODE(despeckle) {
  Rng &r = c.rng;
  int kind = (int)r.u(3);   // 0: speckles on a canvas, exact; 1, 2: any image, invariants
  int np = r.p(0.5) ? 1 : 3;
  int level = r.p(0.05) ? 0 : r.p(0.7) ? r.range(1, 6) : r.range(1, 20);
  double tight = r.p(0.3) ? 0 : r.frange(0, 8), noise = r.p(0.3) ? 1 : r.p(0.05) ? 0 : r.frange(0, 1);
  Img im;
  struct Speck { std::vector<int> px; RGB col; };
  std::vector<Speck> specks;
  std::vector<RGB> canvas;
  if (kind == 0) {
    im = Img(r.range(8, 48), r.range(8, 48), np);
    canvas = gen_palette(r, r.p(0.6) ? 1 : r.range(2, 3), np);
    int bands = (int)canvas.size();
    bool vert = r.p(0.5);
    int len = vert ? im.w : im.h;
    std::vector<int> cut;   // where the next band starts; bands of one pixel at the border are common
    for (int k = 1; k < bands; k++) cut.push_back(r.p(0.35) ? (r.p(0.5) ? 1 : len - 1) : r.p(0.3) ? len * k / bands : r.range(1, len - 1));
    std::sort(cut.begin(), cut.end());
    for (int y = 0; y < im.h; y++) for (int x = 0; x < im.w; x++) {
      int k = 0;
      for (int z : cut) if ((vert ? x : y) >= z) k++;
      im.set(x, y, canvas[(size_t)k]);
    }
    if (bands > 1 && r.p(0.5)) { level = r.range(1, 4); if (r.p(0.6)) { tight = 0; noise = 1; } }
    Img base = im;
    std::vector<char> taken((size_t)im.w * im.h, 0);
    int tries = r.range(1, 30), area = 0;
    for (int t = 0; t < tries && area < im.w * im.h / 4; t++) {
      int want = r.p(0.5) ? r.range(1, 4) : r.range(1, 40);
      int x = r.range(0, im.w - 1), y = r.range(0, im.h - 1);
      if (!cut.empty() && r.p(0.5)) {
        int z = cut[r.u((uint32_t)cut.size())] - (r.p(0.5) ? 1 : 0);
        (vert ? x : y) = z;
      }
      Speck s;
      std::vector<int> front(1, y * im.w + x);
      std::vector<char> mine((size_t)im.w * im.h, 0);
      while (!front.empty() && (int)s.px.size() < want) {
        size_t k = r.u((uint32_t)front.size());
        int p = front[k];
        front[k] = front.back(); front.pop_back();
        if (mine[(size_t)p]) continue;
        int px = p % im.w, py = p / im.w;
        bool ok = true;   // keep a distance of one pixel to other speckles
        for (int dy = -1; dy <= 1 && ok; dy++) for (int dx = -1; dx <= 1; dx++) {
          int xx = px + dx, yy = py + dy;
          if (xx >= 0 && yy >= 0 && xx < im.w && yy < im.h && taken[(size_t)yy * im.w + xx]) { ok = false; break; }
        }
        if (!ok) continue;
        mine[(size_t)p] = 1;
        s.px.push_back(p);
        if (px > 0) front.push_back(p - 1);
        if (px + 1 < im.w) front.push_back(p + 1);
        if (py > 0) front.push_back(p - im.w);
        if (py + 1 < im.h) front.push_back(p + im.w);
      }
      if (s.px.empty()) continue;
      for (int k = 0; k < 20; k++) {
        RGB base1 = canvas[r.u((uint32_t)canvas.size())];
        int d = r.p(0.5) ? 255 : r.range(1, 60);
        auto j = [&](unsigned char v) { int q = v + r.range(-d, d); return (unsigned char)(q < 0 ? 0 : q > 255 ? 255 : q); };
        s.col = RGB{j(base1.r), j(base1.g), j(base1.b)};
        if (np == 1) s.col = RGB{s.col.r, s.col.r, s.col.r};
        if (!has(canvas, s.col)) break;
      }
      if (has(canvas, s.col)) continue;
      for (int p : s.px) { taken[(size_t)p] = 1; im.set(p % im.w, p / im.w, s.col); }
      area += (int)s.px.size();
      specks.push_back(s);
    }
  } else {
    GenOpt g;
    g.maxdim = r.p(0.2) ? 60 : 24;
    g.np = np;
    g.maxcolors = r.p(0.5) ? 4 : 30;
    im = gen_image(r, g);
    if (r.p(0.3)) for (auto &b : im.px) if (r.p(0.1)) b = (unsigned char)r.u(256);
    if (r.p(0.25)) { tight = 0; noise = 1; }
  }
  at_fitting_opts_type *o = at_fitting_opts_new();
  unpoison(o, sizeof *o);
  o->despeckle_level = (unsigned)level;
  o->despeckle_tightness = (float)tight;
  o->noise_removal = (float)noise;
  o->error_threshold = 6;
  tight = o->despeckle_tightness; noise = o->noise_removal;
  int L = std::min(level, (int)(log2((double)im.w * im.h) - 0.5));
  say("%dx%dx%d kind %d level %d (%d) tight %g noise %g\n", im.w, im.h, im.np, kind, level, L, tight, noise);
  auto before = im.colors();
  print_img(im, before);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = trace(b, o, &m);
  use_hash(im.hash()); use_hash(hash_opts(o));
  Img q = from_bitmap(b);
  say("after:\n");
  print_img(q, before);
  if (!s) report("no-splines", "%s", m.first);
  long changed = 0;
  std::vector<int> l0, l1;
  int n0 = label(im, 4, l0), n1 = label(q, 4, l1);
  std::vector<int> size((size_t)n0, 0), size1((size_t)n1, 0), first((size_t)n0, -1);
  for (size_t i = 0; i < l0.size(); i++) { size[(size_t)l0[i]]++; size1[(size_t)l1[i]]++; if (first[(size_t)l0[i]] < 0) first[(size_t)l0[i]] = (int)i; }
  // colours that chains of permitted steps can connect
  double step = -1;
  for (int i = 1; i < L; i++) step = std::max(step, limit_at(i, L, tight, noise) + 0.01);
  std::vector<int> group(before.size());
  for (size_t i = 0; i < group.size(); i++) group[i] = (int)i;
  for (size_t i = 0; i < group.size(); i++) for (size_t j = 0; j < i; j++) {
    RGB a = before[i], z = before[j];
    double d = im.np == 1 ? abs(a.r - z.r) : sqrt((sq(a.r - z.r) + sq(a.g - z.g) + sq(a.b - z.b)) / 3.0);
    if (d > step || group[i] == group[j]) continue;
    int from = group[i], to = group[j];
    for (auto &k : group) if (k == from) k = to;
  }
  auto group_of = [&](RGB k) { return group[(size_t)(std::lower_bound(before.begin(), before.end(), k) - before.begin())]; };
  for (int y = 0; y < im.h && !reported_any(); y++) for (int x = 0; x < im.w; x++) {
    RGB p = im.at(x, y), z = q.at(x, y);
    size_t l = (size_t)l0[(size_t)y * im.w + x];
    if (!has(before, z)) { report("new-colour", "pixel (%d,%d) became %06x, a colour the image did not have", x, y, z.code()); break; }
    int f = first[l];
    if (z != q.at(f % im.w, f / im.w)) { report("region-split", "the region of pixel (%d,%d) has two colours after despeckling", x, y); break; }
    if (p == z) continue;
    changed++;
    if (L <= 1) { report("level-small", "level %d changed pixel (%d,%d)", level, x, y); break; }
    if (size[l] >= (1 << (L - 1))) { report("large-region", "pixel (%d,%d) of a region of %d pixels changed at level %d", x, y, size[l], level); break; }
    if (group_of(p) != group_of(z)) { report("too-different", "pixel (%d,%d) changed from %06x to %06x, more than tightness %g and noise removal %g allow", x, y, p.code(), z.code(), tight, noise); break; }
  }
  if (tight == 0 && noise == 1 && L >= 1 && !reported_any() && n1 > 1)
    for (int i = 0; i < n1; i++) if (size1[(size_t)i] < (1 << (L - 1))) { report("survivor", "a region of %d pixels survived level %d", size1[(size_t)i], level); break; }
  if (kind == 0 && !reported_any()) {
    // each band must still be one region of its own, large enough to be left alone
    bool sound = true;
    int cn = 0;
    for (int i = 0; i < n0; i++) { int f = first[(size_t)i]; if (has(canvas, im.at(f % im.w, f / im.w))) { cn++; if (size[(size_t)i] < (1 << std::max(0, L - 1))) sound = false; } }
    if (cn < 1) sound = false;
    if (sound) for (auto &sp : specks) {
      std::vector<RGB> nbs;
      for (int p : sp.px) {
        int x = p % im.w, y = p / im.w;
        const int dx[4] = {1, -1, 0, 0}, dy[4] = {0, 0, 1, -1};
        for (int k = 0; k < 4; k++) { int xx = x + dx[k], yy = y + dy[k]; if (xx >= 0 && yy >= 0 && xx < im.w && yy < im.h && im.at(xx, yy) != sp.col && !has(nbs, im.at(xx, yy))) nbs.push_back(im.at(xx, yy)); }
      }
      if (nbs.empty()) continue;
      auto err = [&](RGB a) { return im.np == 1 ? (double)abs(a.r - sp.col.r) : sqrt((sq(a.r - sp.col.r) + sq(a.g - sp.col.g) + sq(a.b - sp.col.b)) / 3.0); };
      std::sort(nbs.begin(), nbs.end(), [&](RGB a, RGB z) { return err(a) < err(z); });
      double e = err(nbs[0]);
      if (nbs.size() > 1 && err(nbs[1]) - e < 0.01) continue;
      bool must = false, may = false;
      int sz = (int)sp.px.size();
      for (int i = 1; i < L; i++) if (sz < (1 << i)) {
        double t = limit_at(i, L, tight, noise);
        if (e <= t - 1.01) must = true;
        if (e <= t + 0.01) may = true;
      }
      RGB got = q.at(sp.px[0] % im.w, sp.px[0] / im.w);
      count("speckles");
      c.nontrivial = true;
      if (must && got != nbs[0]) { report(got == sp.col ? "speckle-left" : "wrong-neighbour", "a speckle of %d pixels of colour %06x beside %06x is %06x at level %d, tightness %g, noise removal %g", sz, sp.col.code(), nbs[0].code(), got.code(), level, tight, noise); break; }
      if (!may && got != sp.col) { report("speckle-merged", "a speckle of %d pixels of colour %06x became %06x at level %d, tightness %g, noise removal %g", sz, sp.col.code(), got.code(), level, tight, noise); break; }
      count(must ? "speckles_to_merge" : may ? "speckles_undecided" : "speckles_to_keep");
    } else count("unsound_canvas");
  }
  if (changed) c.nontrivial = true;
  count("pixels_changed", (double)changed);
  if (c.nontrivial) sample("%dx%dx%d level %d tightness %.2f noise %.2f: %d regions -> %d, %ld pixels changed", im.w, im.h, im.np, level, tight, noise, n0, n1, changed);
  if (s) at_splines_free(s);
  at_bitmap_free(b);
  at_fitting_opts_free(o);
}

// ---- C11, C12 ----
struct Watch {
  long calls = 0, at = -1;
  bool sticky = true;
  std::vector<float> progress;
  std::vector<long> polls_at_progress;
};
static bool watch_cancel(void *d) {
  Watch *k = (Watch *)d;
  long n = k->calls++;
  return k->at >= 0 && (k->sticky ? n >= k->at : n == k->at);
}
static void watch_progress(float v, void *d) {
  ((Watch *)d)->progress.push_back(v);
  ((Watch *)d)->polls_at_progress.push_back(((Watch *)d)->calls);
}
static Img small_image(Rng &r) {
  GenOpt g;
  g.maxdim = r.p(0.15) ? 40 : 14;
  g.maxcolors = 5;
  return r.p(0.35) ? gen_strokes(r, g, r.p(0.7), RGB{255, 255, 255}) : gen_image(r, g);
}
MODE(cancel) {
  Rng &r = c.rng;
  Img im = small_image(r);
  at_fitting_opts_type *o = gen_opts(r, im);
  if (o->background_color && im.np == 1) o->background_color->g = o->background_color->b = o->background_color->r;
  if (o->color_count && r.p(0.8)) o->color_count = 0;   // slow, and never polls
  o->centerline = r.p(0.5);
  print_opts(o);
  auto pal = im.colors();
  print_img(im, pal);
  uint64_t oh = hash_opts(o);
  // without callback, and with one that never cancels
  at_bitmap *b0 = to_bitmap(im), *b1 = to_bitmap(im);
  Msgs m0, m1;
  at_splines_type *s0 = at_splines_new_full(b0, o, msg_cb, &m0, nullptr, nullptr, nullptr, nullptr);
  Watch w1;
  at_splines_type *s1 = at_splines_new_full(b1, o, msg_cb, &m1, nullptr, nullptr, watch_cancel, &w1);
  char why[200];
  if (!splines_same(s0, s1, true, why, sizeof why)) report("callback-changes-result", "%s", why);
  else if (memcmp(b0->bitmap, b1->bitmap, im.px.size())) report("callback-changes-bitmap", "the processed bitmap depends on the cancel callback");
  unsigned lists = s0 ? s0->length : 0;
  // polled throughout the scan and before each list
  long N = w1.calls;
  if (s1 && N < im.h + (long)lists) report("few-polls", "%ld polls for %d rows and %u lists in %s mode", N, im.h, lists, o->centerline ? "centerline" : "outline");
  if (s0) at_splines_free(s0);
  if (s1) at_splines_free(s1);
  at_bitmap_free(b0); at_bitmap_free(b1);
  // with every (or a sample of) poll index
  std::vector<long> at;
  long cap = c.thorough ? 120 : 40;
  if (N <= cap) for (long k = 0; k < N; k++) at.push_back(k);
  else {
    for (long k = 0; k < cap / 2; k++) at.push_back((long)r.u((uint32_t)N));
    for (long k = 0; k < cap / 2; k++) at.push_back(N - 1 - k);   // the fitting phase
    at.push_back(0);
  }
  for (long k : at) {
    if (reported_any()) break;
    at_bitmap *b = to_bitmap(im);
    Watch w;
    w.at = k;
    w.sticky = r.p(0.5);
    w.progress.reserve((size_t)(im.w * im.h * 3 + 200));
    w.polls_at_progress.reserve((size_t)(im.w * im.h * 3 + 200));
    bool prog = r.p(0.5);
    Msgs m;
    mem_forget();
    mem_track(true);
    at_splines_type *s = at_splines_new_full(b, o, msg_cb, &m, prog ? watch_progress : nullptr, &w, watch_cancel, &w);
    mem_track(false);
    count("cancellations");
    if (s) {
      report(w.sticky ? "result-after-cancel" : "result-after-transient-cancel", "cancelled at poll %ld of %ld (%s), but splines were returned", k, N, w.sticky ? "kept" : "once");
      at_splines_free(s);
    } else if (mem_live()) {
      char d[400];
      mem_describe(d, sizeof d);
      report("leak-after-cancel", "cancelled at poll %ld of %ld: %zu blocks (%zu bytes) leaked, first by %s", k, N, mem_live(), mem_live_bytes(), d);
    }
    mem_forget();
    if (hash_opts(o) != oh) report("options-changed", "cancelling at poll %ld changed the options", k);
    if (w.calls > k + 8 && !reported_any()) report("goes-on", "cancelled at poll %ld, but polled %ld more times", k, w.calls - k - 1);
    for (float v : w.progress) if (v == 1.0f) { report("complete-after-cancel", "progress 1.0 was notified although cancelled"); break; }
    at_bitmap_free(b);
  }
  if (N > 0) c.nontrivial = true;
  count("polls", (double)N);
  use_hash(im.hash()); use_hash(oh);
  sample("%dx%d %s: %ld polls, %zu of them cancelled, %u lists", im.w, im.h, o->centerline ? "centerline" : "outline", N, at.size(), lists);
  at_fitting_opts_free(o);
}
MODE(progress) {
  Rng &r = c.rng;
  GenOpt g;
  g.maxdim = r.p(0.2) ? 120 : 36;
  g.maxcolors = r.p(0.1) ? 30 : 5;
  Img im = r.p(0.35) ? gen_strokes(r, g, r.p(0.7), RGB{255, 255, 255}) : gen_image(r, g);
  if (r.p(0.03)) { im = Img(r.range(0, 2), r.range(0, 2), 1); for (auto &b : im.px) b = r.p(0.5) ? 255 : 0; }
  at_fitting_opts_type *o = gen_opts(r, im);
  if (o->background_color && im.np == 1) o->background_color->g = o->background_color->b = o->background_color->r;
  print_opts(o);
  at_bitmap *b0 = to_bitmap(im), *b1 = to_bitmap(im);
  Msgs m0, m1;
  Watch w;
  at_splines_type *s0 = at_splines_new_full(b0, o, msg_cb, &m0, nullptr, nullptr, nullptr, nullptr);
  at_splines_type *s1 = at_splines_new_full(b1, o, msg_cb, &m1, watch_progress, &w, nullptr, nullptr);
  char why[200];
  if (!splines_same(s0, s1, true, why, sizeof why)) report("callback-changes-result", "%s", why);
  float last = -1;
  long ones = 0;
  for (size_t i = 0; i < w.progress.size(); i++) {
    float v = w.progress[i];
    if (!(v >= 0 && v <= 1)) { report("out-of-range", "notification %zu of %zu is %g", i, w.progress.size(), v); break; }
    if (v < last) { report("goes-back", "notification %zu of %zu is %.7g after %.7g", i, w.progress.size(), v, last); break; }
    last = v;
    ones += v == 1.0f;
  }
  if (s1 && !reported_any()) {
    if (w.progress.empty() || w.progress.back() != 1.0f) report("no-end", "the last of %zu notifications is %g", w.progress.size(), w.progress.empty() ? -1.0 : (double)w.progress.back());
    else if (ones != 1) report("repeated-end", "1.0 was notified %ld times", ones);
    else if (im.w > 0 && (long)w.progress.size() < im.h) report("few-notifications", "%zu notifications for %d rows", w.progress.size(), im.h);
  }
  count("notifications", (double)w.progress.size());
  use_hash(im.hash()); use_hash(hash_opts(o));
  if (w.progress.size() > 1) { c.nontrivial = true; sample("%dx%d %s: %zu notifications from %g to %g", im.w, im.h, o->centerline ? "centerline" : "outline", w.progress.size(), w.progress[0], w.progress.back()); }
  if (s0) at_splines_free(s0);
  if (s1) at_splines_free(s1);
  at_bitmap_free(b0); at_bitmap_free(b1);
  at_fitting_opts_free(o);
}

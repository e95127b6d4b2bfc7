// Mode objects (C30): bitmaps and colours read back what was stored.
#include "geom.hpp"

static void colours(Ctx &c) {
  Rng &r = c.rng;
  // any string: six hexadecimal digits are a colour, all others are none
  char t[40];
  int n = 0, kind = (int)r.u(6);
  static const char HEX[] = "0123456789abcdefABCDEF";
  n = kind < 4 ? 6 : (int)r.u(14);
  for (int i = 0; i < n; i++) t[i] = HEX[r.u(22)];
  if (kind == 2 || kind == 5) for (int k = r.range(1, 2); k-- && n;) { int v = (int)(c.idx + k * 97) % 255 + 1; t[r.u((uint32_t)n)] = (char)v; }
  if (kind == 3 && r.p(0.5)) { static const char *const near[] = {"g", "G", "/", ":", "@", "`", " ", "#", "x", "-", "+", "."}; t[r.u(6)] = near[r.u(12)][0]; }
  t[n] = 0;
  bool good = n == 6;
  unsigned v[6] = {0};
  for (int i = 0; i < n; i++) { const char *p = strchr(HEX, t[i]); if (!p || !t[i]) good = false; else if (i < 6) { unsigned d = (unsigned)(p - HEX); v[i] = d > 15 ? d - 6 : d; } }
  use_hash(hash_bytes(t, (size_t)n));
  at_color *k = at_color_parse(r.p(0.02) ? nullptr : t, nullptr);
  if (!k) {
    // may have been the missing string
    k = at_color_parse(t, nullptr);
  }
  if (good != (k != nullptr)) report("colour-string", "\"%s\" is %staken for a colour", t, k ? "" : "not ");
  if (k && good) {
    if (k->r != v[0] * 16 + v[1] || k->g != v[2] * 16 + v[3] || k->b != v[4] * 16 + v[5]) report("colour-value", "\"%s\" gives %02x%02x%02x", t, k->r, k->g, k->b);
    count("colour_strings");
  } else count("other_strings");
  free(k);
  // equality, copies, luminance
  at_color a = {(uint8_t)r.u(256), (uint8_t)r.u(256), (uint8_t)r.u(256)}, b = a;
  if (r.p(0.7)) { uint8_t *q[3] = {&b.r, &b.g, &b.b}; *q[r.u(3)] = (uint8_t)r.u(256); }
  bool same = a.r == b.r && a.g == b.g && a.b == b.b;
  if (at_color_equal(&a, &b) != same || at_color_equal(&b, &a) != same) report("colour-equality", "%02x%02x%02x and %02x%02x%02x are %sequal", a.r, a.g, a.b, b.r, b.g, b.b, same ? "not " : "");
  at_color *cp = at_color_copy(&a), *nw = at_color_new(b.r, b.g, b.b);
  if (!cp || !nw || cp == &a || rgb(*cp) != rgb(a) || rgb(*nw) != rgb(b)) report("colour-copy", "a copy or new colour differs");
  if (cp) { at_color_set(cp, b.r, b.g, b.b); if (rgb(*cp) != rgb(b)) report("colour-set", "a colour set to %02x%02x%02x is %02x%02x%02x", b.r, b.g, b.b, cp->r, cp->g, cp->b); }
  if (at_color_copy(nullptr)) report("colour-copy", "the copy of no colour is a colour");
  if (cp) at_color_free(cp);
  if (nw) at_color_free(nw);
  double lum = 0.30 * a.r + 0.59 * a.g + 0.11 * a.b;
  int got = at_color_luminance(&a);
  if (fabs(got - lum) > 0.51) report("luminance", "the luminance of %02x%02x%02x is %d, expected %.2f", a.r, a.g, a.b, got, lum);
  at_color grey = {a.r, a.r, a.r};
  if (at_color_luminance(&grey) != a.r) report("luminance", "the luminance of grey %d is %d", a.r, at_color_luminance(&grey));
  c.nontrivial = true;
}
static void bitmaps(Ctx &c) {
  Rng &r = c.rng;
  unsigned w = r.p(0.1) ? (unsigned)r.range(1, 65535) : (unsigned)r.range(0, 40), h = r.p(0.1) ? (unsigned)r.range(1, 65535) : (unsigned)r.range(0, 40), np = r.p(0.5) ? 1u : 3u;
  if ((uint64_t)w * h * np > 3000000) { if (r.p(0.5)) w = std::min(w, 3u); else h = std::min(h, 3u); if ((uint64_t)w * h * np > 3000000) w = 2; }
  at_bitmap *b = at_bitmap_new((unsigned short)w, (unsigned short)h, np);
  if (!b) { report("no-bitmap", "no bitmap of %ux%u", w, h); return; }
  if (w && h) {                  // without bitmap or colour
    at_color k = {1, 2, 3};
    at_bitmap_get_color(nullptr, 0, 0, &k);
    at_bitmap_get_color(b, 0, 0, nullptr);
    at_color_set(nullptr, 9, 9, 9);
    if (k.r != 1 || k.g != 2 || k.b != 3) report("colour-without-bitmap", "asking no bitmap for a colour gives %d %d %d", k.r, k.g, k.b);
    if (at_bitmap_equal_color(nullptr, 0, 0, &k) || at_bitmap_equal_color(b, 0, 0, nullptr)) report("equal-without-bitmap", "a missing bitmap or colour compares equal");
    count("missing_arguments");
  }
  if (at_bitmap_get_width(b) != w || at_bitmap_get_height(b) != h || at_bitmap_get_planes(b) != np) report("bitmap-size", "a bitmap of %ux%u with %u planes says %ux%u with %u", w, h, np, at_bitmap_get_width(b), at_bitmap_get_height(b), at_bitmap_get_planes(b));
  use_hash((uint64_t)w << 32 | h << 8 | np);
  size_t n = (size_t)w * h * np;
  if (n) {
    if (!b->bitmap || !all_addressable(b->bitmap, n)) { report("bitmap-storage", "a bitmap of %ux%u lacks storage", w, h); return; }
    for (size_t i = 0; i < n; i++) if (b->bitmap[i]) { report("bitmap-not-empty", "byte %zu of a new bitmap is %d", i, b->bitmap[i]); break; }
    for (size_t i = 0; i < n; i++) b->bitmap[i] = (unsigned char)r.next();
    at_bitmap *d = at_bitmap_copy(b);
    if (!d || d == b || d->bitmap == b->bitmap || at_bitmap_get_width(d) != w || at_bitmap_get_height(d) != h || at_bitmap_get_planes(d) != np || !all_addressable(d->bitmap, n) || memcmp(d->bitmap, b->bitmap, n)) report("bitmap-copy", "the copy of a bitmap of %ux%u differs", w, h);
    if (d) at_bitmap_free(d);
    for (int k = 0; k < 40 && !reported_any(); k++) {
      unsigned row = k & 1 ? r.u(h) : r.p(0.5) ? h - 1 : 0, col = k & 2 ? r.u(w) : r.p(0.5) ? w - 1 : 0;
      const unsigned char *p = b->bitmap + ((size_t)row * w + col) * np;
      at_color want = np == 3 ? at_color{p[0], p[1], p[2]} : at_color{p[0], p[0], p[0]}, got = {0, 0, 0}, near = want;
      at_bitmap_get_color(b, row, col, &got);
      if (rgb(got) != rgb(want)) report("pixel-colour", "pixel (%u,%u) of %ux%ux%u is %02x%02x%02x, read as %02x%02x%02x", col, row, w, h, np, want.r, want.g, want.b, got.r, got.g, got.b);
      uint8_t *q[3] = {&near.r, &near.g, &near.b};
      *q[r.u(3)] ^= (uint8_t)(1u << r.u(8));
      if (!at_bitmap_equal_color(b, row, col, &want) || at_bitmap_equal_color(b, row, col, &near)) report("pixel-equality", "pixel (%u,%u) with colour %02x%02x%02x compares wrongly", col, row, want.r, want.g, want.b);
      count("pixels_looked_at");
    }
    c.nontrivial = true;
  }
  at_bitmap_free(b);
}
MODE(objects) {
  if (c.rng.p(0.7)) colours(c);
  else bitmaps(c);
}

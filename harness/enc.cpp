// Encoders of well-formed image files, written from the format specifications.
#include "vh.hpp"
#include <zlib.h>

const char *const ENC_NAMES[] = {"pnm", "bmp", "tga", "png", "gf"};
const int NENC = 5;

static void p8(Bytes &b, unsigned v) { b.push_back((unsigned char)v); }
static void le16(Bytes &b, unsigned v) { p8(b, v & 255); p8(b, v >> 8 & 255); }
static void le32(Bytes &b, uint32_t v) { le16(b, v & 0xffff); le16(b, v >> 16); }
static void be32(Bytes &b, uint32_t v) { p8(b, v >> 24); p8(b, v >> 16 & 255); p8(b, v >> 8 & 255); p8(b, v & 255); }
static void put(Bytes &b, const char *s) { while (*s) p8(b, (unsigned char)*s++); }
static void set32(Bytes &b, size_t o, uint32_t v) { for (int i = 0; i < 4; i++) b[o + i] = (unsigned char)(v >> 8 * i); }

static void rand_dims(Rng &r, int maxdim, int &w, int &h) {
  switch (r.u(6)) {
    case 0: w = r.range(1, 3); h = r.range(1, maxdim); break;
    case 1: w = r.range(1, maxdim); h = r.range(1, 3); break;
    case 2: w = r.range(1, 9); h = r.range(1, 9); break;
    default: w = r.range(1, maxdim); h = r.range(1, maxdim);
  }
}
// index image with runs, so that RLE has something to do
static std::vector<int> rand_index(Rng &r, int w, int h, int n) {
  std::vector<int> v((size_t)w * h);
  double keep = r.p(0.3) ? 0 : r.frange(0, 0.98);
  int cur = (int)r.u((uint32_t)n);
  for (size_t i = 0; i < v.size(); i++) {
    if (!r.p(keep)) cur = (int)r.u((uint32_t)n);
    v[i] = cur;
  }
  return v;
}

// ---------------------------------------------------------------- PNM
static void pnm_space(Rng &r, Bytes &b, bool comments) {
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) p8(b, (unsigned char)" \t\n\r"[r.u(4)]);
  if (comments && r.p(0.3)) { put(b, "# a comment 12 P6 #\n"); if (r.p(0.3)) put(b, "#\n"); }
}
static Encoded enc_pnm(Rng &r, int maxdim) {
  Encoded e;
  int type = r.range(1, 6), w, h;
  rand_dims(r, maxdim, w, h);
  static const char *const suf1[] = {"pbm", "pgm", "ppm"};
  e.suffix = r.p(0.5) ? "pnm" : suf1[(type - 1) % 3];
  bool ascii = type <= 3;
  int np = (type == 3 || type == 6) ? 3 : 1;
  int maxval = type == 1 || type == 4 ? 1 : r.p(0.5) ? 255 : r.p(0.3) ? 1 : ascii && r.p(0.2) ? r.range(256, 65535) : r.range(1, 255);
  e.exp = Img(w, h, np);
  bool comments = r.p(0.4);
  char t[64];
  snprintf(t, sizeof t, "P%d", type);
  put(e.data, t);
  if (comments && r.p(0.2)) put(e.data, "# x\n"); else pnm_space(r, e.data, comments);
  snprintf(t, sizeof t, "%d", w); put(e.data, t); pnm_space(r, e.data, comments);
  snprintf(t, sizeof t, "%d", h); put(e.data, t);
  bool bilevel = type == 1 || type == 4;
  if (!bilevel) { pnm_space(r, e.data, comments); snprintf(t, sizeof t, "%d", maxval); put(e.data, t); }
  if (ascii) pnm_space(r, e.data, comments); else p8(e.data, (unsigned char)" \t\n"[r.u(3)]);
  e.body = e.data.size();
  if (bilevel) {
    std::vector<int> v = rand_index(r, w, h, 2);
    for (size_t i = 0; i < v.size(); i++) e.exp.px[i] = v[i] ? 0 : 255;
    if (ascii) {
      bool packed = r.p(0.5);
      for (size_t i = 0; i < v.size(); i++) {
        if (i && (!packed || r.p(0.05))) pnm_space(r, e.data, false);
        e.need = e.data.size() + 1;
        p8(e.data, v[i] ? '1' : '0');
      }
      if (r.p(0.7)) p8(e.data, '\n');
    } else {
      for (int y = 0; y < h; y++) {
        unsigned acc = 0; int n = 0;
        for (int x = 0; x < w; x++) {
          acc = acc << 1 | (unsigned)v[(size_t)y * w + x];
          if (++n == 8) { p8(e.data, acc); acc = 0; n = 0; }
        }
        if (n) p8(e.data, (acc << (8 - n)) & 255);
      }
      e.need = e.data.size();
    }
  } else {
    size_t N = (size_t)w * h * np;
    std::vector<int> v = rand_index(r, w * np, h, maxval + 1);
    for (size_t i = 0; i < N; i++) {
      // linear scaling; both the nearest and the next lower level are accepted by the caller
      e.exp.px[i] = (unsigned char)(255.0 * v[i] / maxval);
      if (ascii) {
        if (i) pnm_space(r, e.data, comments && r.p(0.05));
        e.need = e.data.size() + 1;
        snprintf(t, sizeof t, r.p(0.1) ? "%03d" : "%d", v[i]);
        put(e.data, t);
      } else p8(e.data, (unsigned)v[i]);
    }
    if (ascii && r.p(0.7)) p8(e.data, '\n');
    if (!ascii) e.need = e.data.size();
  }
  snprintf(e.variant, sizeof e.variant, "pnm-P%d-max%d%s", type, maxval == 255 ? 255 : maxval == 1 ? 1 : maxval > 255 ? 9999 : 0, comments ? "-comments" : "");
  return e;
}

// ---------------------------------------------------------------- BMP
static unsigned char scale(unsigned v, int bits) {
  if (bits == 0) return 0;
  return (unsigned char)floor(v * 255.0 / ((1u << bits) - 1) + 0.5);
}
static Encoded enc_bmp(Rng &r, int maxdim) {
  Encoded e;
  e.suffix = "bmp";
  int w, h;
  rand_dims(r, maxdim, w, h);
  static const int bpps[] = {1, 4, 8, 16, 24, 32};
  int bpp = bpps[r.u(6)];
  int hs = (bpp == 16 || bpp == 32) ? 40 : (r.p(0.2) ? 12 : 40);
  if (hs == 40) { int k = (int)r.u(6); if (k == 0) hs = 108; else if (k == 1) hs = 124; else if (k == 2) hs = 56; }
  int compr = 0;
  if (bpp == 8 && hs >= 40 && r.p(0.4)) compr = 1;
  if (bpp == 4 && hs >= 40 && r.p(0.4)) compr = 2;
  if ((bpp == 16 || bpp == 32) && hs >= 40 && r.p(0.5)) compr = 3;
  bool topdown = hs >= 40 && compr != 1 && compr != 2 && r.p(0.3);
  bool pal = bpp <= 8;
  int ncol = pal ? 1 << bpp : 0;
  int used = 0;
  if (pal && hs >= 40 && r.p(0.4)) { used = r.range(1, ncol); ncol = used; }
  std::vector<RGB> cm;
  bool greypal = r.p(0.35);
  for (int i = 0; i < ncol; i++) {
    unsigned char g = (unsigned char)r.u(256);
    cm.push_back(greypal ? RGB{g, g, g} : RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)});
  }
  bool deltas = (compr == 1 || compr == 2) && r.p(0.5);     // pixels skipped have index 0, made black so that nothing else can be meant
  if (deltas) cm[0] = RGB{0, 0, 0};
  // channel masks
  int bits[4] = {0, 0, 0, 0}; int sh[4] = {0, 0, 0, 0}; uint32_t mask[4] = {0, 0, 0, 0};
  if (bpp == 16) { bits[0] = bits[1] = bits[2] = 5; sh[0] = 10; sh[1] = 5; sh[2] = 0; }
  if (bpp == 32) { bits[0] = bits[1] = bits[2] = 8; sh[0] = 16; sh[1] = 8; sh[2] = 0; }
  if (compr == 3) {
    if (bpp == 16) {
      if (r.p(0.5)) { bits[1] = 6; sh[0] = 11; }
      else if (r.p(0.5)) { bits[0] = bits[1] = bits[2] = 4; sh[0] = 8; sh[1] = 4; if (hs >= 56) { bits[3] = 4; sh[3] = 12; } }
    } else {
      int order = (int)r.u(3);
      if (order == 1) { sh[0] = 0; sh[1] = 8; sh[2] = 16; }
      if (order == 2) { sh[0] = 24; sh[1] = 16; sh[2] = 8; }
      if (hs >= 56 && r.p(0.5)) { bits[3] = 8; sh[3] = order == 2 ? 0 : 24; }
      if (hs >= 40 && r.p(0.2)) { bits[0] = bits[1] = bits[2] = 10; sh[0] = 20; sh[1] = 10; sh[2] = 0; bits[3] = 0; }
    }
  }
  for (int i = 0; i < 4; i++) mask[i] = bits[i] ? ((1u << bits[i]) - 1) << sh[i] : 0;
  Bytes &b = e.data;
  put(b, "BM");
  le32(b, 0); le16(b, 0); le16(b, 0); le32(b, 0); le32(b, (uint32_t)hs);
  if (hs == 12) { le16(b, (unsigned)w); le16(b, (unsigned)h); le16(b, 1); le16(b, (unsigned)bpp); }
  else {
    le32(b, (uint32_t)w); le32(b, (uint32_t)(topdown ? -h : h)); le16(b, 1); le16(b, (unsigned)bpp); le32(b, (uint32_t)compr);
    le32(b, 0); le32(b, 2835); le32(b, 2835); le32(b, (uint32_t)used); le32(b, 0);
    if (hs >= 56) { for (int i = 0; i < 4; i++) le32(b, compr == 3 ? mask[i] : 0); while ((int)b.size() < 14 + hs) p8(b, 0); }
    else if (compr == 3) for (int i = 0; i < 3; i++) le32(b, mask[i]);
  }
  for (int i = 0; i < ncol; i++) { p8(b, cm[(size_t)i].b); p8(b, cm[(size_t)i].g); p8(b, cm[(size_t)i].r); if (hs != 12) p8(b, 0); }
  int gap = (!pal && r.p(0.2)) ? r.range(1, 12) : 0;
  for (int i = 0; i < gap; i++) p8(b, 0);
  e.body = b.size();
  set32(b, 10, (uint32_t)b.size());
  e.exp = Img(w, h, 3);
  if (pal) {
    std::vector<int> v = rand_index(r, w, h, ncol);
    if (deltas) for (int k = r.range(1, 6); k--;) {
      size_t a = r.u((uint32_t)v.size()), n = r.u((uint32_t)(r.p(0.5) ? w : 3 * w)) + 1;
      for (size_t i = a; i < v.size() && i < a + n; i++) v[i] = 0;
    }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) e.exp.set(x, y, cm[(size_t)v[(size_t)y * w + x]]);
    if (compr == 0) {
      for (int k = 0; k < h; k++) {
        int y = topdown ? k : h - 1 - k;
        size_t start = b.size();
        unsigned acc = 0; int n = 0;
        for (int x = 0; x < w; x++) {
          acc = acc << bpp | (unsigned)v[(size_t)y * w + x]; n += bpp;
          if (n == 8) { p8(b, acc); acc = 0; n = 0; }
        }
        if (n) p8(b, (acc << (8 - n)) & 255);
        e.need = b.size();
        while ((b.size() - start) % 4) p8(b, 0);
      }
    } else {
      int x = 0;
      for (int k = 0; k < h; k++, x = 0) {
        const int *row = &v[(size_t)(h - 1 - k) * w];
        while (x < w) {
          if (deltas && row[x] == 0 && r.p(0.6)) {            // skip to the right, or up if all on the way is skipped, too
            int n = 0;
            while (x + n < w && row[x + n] == 0) n++;
            int k2 = k, x2 = 0;
            if (x + n == w) for (k2 = k + 1; k2 < h && k2 - k <= 255; k2++) {
              const int *next = &v[(size_t)(h - 1 - k2) * w];
              for (x2 = 0; x2 < w && next[x2] == 0;) x2++;
              if (x2 < w) break;
            }
            if (x + n == w && k2 < h && k2 - k <= 255 && x2 >= x && x2 < w && r.p(0.7)) {
              x2 = std::min(r.p(0.5) ? x2 : r.range(x, x2), x + 255);
              p8(b, 0); p8(b, 2); p8(b, (unsigned)(x2 - x)); p8(b, (unsigned)(k2 - k));
              k = k2; x = x2;
              row = &v[(size_t)(h - 1 - k) * w];
              continue;
            }
            n = std::min(255, r.p(0.5) ? n : r.range(1, n));
            if (x + n < w) { p8(b, 0); p8(b, 2); p8(b, (unsigned)n); p8(b, 0); x += n; continue; }
          }
          if (w - x >= 3 && r.p(0.35)) {                      // absolute run
            int n = r.range(3, std::min(255, w - x));
            p8(b, 0); p8(b, (unsigned)n);
            size_t st = b.size();
            if (compr == 1) for (int i = 0; i < n; i++) p8(b, (unsigned)row[x + i]);
            else for (int i = 0; i < n; i += 2) p8(b, (unsigned)(row[x + i] << 4 | (i + 1 < n ? row[x + i + 1] : 0)));
            e.need = b.size();
            if ((b.size() - st) & 1) p8(b, 0);
            x += n;
          } else if (compr == 1) {
            int n = 1;
            while (x + n < w && n < 255 && row[x + n] == row[x] && !r.p(0.02)) n++;
            p8(b, (unsigned)n); p8(b, (unsigned)row[x]);
            e.need = b.size();
            x += n;
          } else {                                             // alternating pair of nibbles
            int a = row[x], c = x + 1 < w ? row[x + 1] : (int)r.u(16), n = 1;
            while (x + n < w && n < 255 && row[x + n] == ((n & 1) ? c : a) && !r.p(0.02)) n++;
            p8(b, (unsigned)n); p8(b, (unsigned)(a << 4 | c));
            e.need = b.size();
            x += n;
          }
        }
        if (k + 1 < h || r.p(0.5)) { p8(b, 0); p8(b, 0); }
      }
      p8(b, 0); p8(b, 1);
    }
  } else {
    int bytes = bpp / 8;
    for (int k = 0; k < h; k++) {
      int y = topdown ? k : h - 1 - k;
      size_t start = b.size();
      for (int x = 0; x < w; x++) {
        if (bpp == 24) {
          RGB c{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
          e.exp.set(x, y, c);
          p8(b, c.b); p8(b, c.g); p8(b, c.r);
        } else {
          uint32_t px = (uint32_t)r.next();
          if (bpp == 16) px &= 0xffff;
          unsigned ch[3];
          for (int i = 0; i < 3; i++) ch[i] = (px & mask[i]) >> sh[i];
          e.exp.set(x, y, RGB{scale(ch[0], bits[0]), scale(ch[1], bits[1]), scale(ch[2], bits[2])});
          for (int i = 0; i < bytes; i++) p8(b, px >> 8 * i & 255);
        }
      }
      e.need = b.size();
      while ((b.size() - start) % 4) p8(b, 0);
    }
  }
  set32(b, 2, (uint32_t)b.size());
  snprintf(e.variant, sizeof e.variant, "bmp-h%d-%dbpp-c%d%s%s", hs, bpp, compr, topdown ? "-topdown" : "", pal && greypal ? "-grey" : "");
  if (r.p(0.08)) {               // the other kinds of OS/2 files
    static const char *const kinds[] = {"IC", "PT", "CI", "CP"};
    memcpy(b.data(), kinds[r.u(4)], 2);
  }
  if (r.p(0.08)) {               // first of an array of bitmaps; offsets count from the start of the file
    Bytes head;
    put(head, "BA");
    le32(head, 14); le32(head, 0); le16(head, 1024); le16(head, 768);
    set32(b, 10, (uint32_t)(e.body + head.size()));
    b.insert(b.begin(), head.begin(), head.end());
    e.body += head.size();
    e.need += head.size();
  }
  return e;
}

// ---------------------------------------------------------------- TGA
static Encoded enc_tga(Rng &r, int maxdim) {
  Encoded e;
  e.suffix = "tga";
  int w, h;
  rand_dims(r, maxdim, w, h);
  static const int types[] = {1, 2, 3, 9, 10, 11};
  int type = types[r.u(6)];
  bool rle = type > 8;
  int base = type & 7;
  int psize = base == 1 ? 1 : base == 3 ? 1 : (r.p(0.5) ? 3 : 4);
  int cms = r.p(0.5) ? 24 : 32, first = 0, cml = 0;
  if (base == 1) { cml = r.range(1, 256); if (r.p(0.3)) first = r.range(0, 256 - cml); }
  bool right = r.p(0.3), top = r.p(0.5);
  Bytes &b = e.data;
  int idlen = r.p(0.3) ? r.range(1, 20) : 0;
  p8(b, (unsigned)idlen); p8(b, base == 1); p8(b, (unsigned)type);
  le16(b, (unsigned)first); le16(b, (unsigned)cml); p8(b, base == 1 ? (unsigned)cms : 0);
  le16(b, 0); le16(b, 0); le16(b, (unsigned)w); le16(b, (unsigned)h);
  p8(b, (unsigned)psize * 8);
  p8(b, (unsigned)((psize == 4 ? 8 : 0) | (right ? 0x10 : 0) | (top ? 0x20 : 0)));
  for (int i = 0; i < idlen; i++) p8(b, r.u(256));
  std::vector<RGB> cm((size_t)(first + cml));
  for (int i = 0; i < cml; i++) {
    RGB c{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)};
    cm[(size_t)(first + i)] = c;
    p8(b, c.b); p8(b, c.g); p8(b, c.r); if (cms == 32) p8(b, r.p(0.5) ? 0 : r.u(256));
  }
  e.body = b.size();
  e.exp = Img(w, h, 3);
  int nv = base == 1 ? cml : 256;
  std::vector<int> v = rand_index(r, w, h, nv);
  std::vector<uint32_t> px(v.size());     // in file order
  std::vector<uint32_t> tab(256);
  for (auto &t : tab) t = (uint32_t)r.next();
  for (int k = 0; k < h; k++) for (int j = 0; j < w; j++) {
    int y = top ? k : h - 1 - k, x = right ? w - 1 - j : j;
    int q = v[(size_t)k * w + j];
    uint32_t p;
    if (base == 1) { p = (uint32_t)(first + q); e.exp.set(x, y, cm[p]); }
    else if (base == 3) { p = (uint32_t)q; e.exp.set(x, y, RGB{(unsigned char)q, (unsigned char)q, (unsigned char)q}); }
    else { p = tab[(size_t)q]; if (psize == 3) p &= 0xffffff; e.exp.set(x, y, RGB{(unsigned char)(p >> 16), (unsigned char)(p >> 8), (unsigned char)p}); }
    px[(size_t)k * w + j] = p;
  }
  auto putpx = [&](uint32_t p) { for (int i = 0; i < psize; i++) p8(b, p >> 8 * i & 255); };
  if (!rle) { for (auto p : px) putpx(p); e.need = b.size(); }
  else {
    bool cross = r.p(0.5);                                   // packets may cross row ends in old files
    size_t i = 0, N = px.size();
    while (i < N) {
      size_t lim = cross ? N : (i / (size_t)w + 1) * (size_t)w;
      size_t n = 1;
      if (r.p(0.5)) {
        while (i + n < lim && n < 128 && px[i + n] == px[i]) n++;
        p8(b, (unsigned)(0x80 | (n - 1))); putpx(px[i]);
      } else {
        n = (size_t)r.range(1, (int)std::min<size_t>(128, lim - i));
        p8(b, (unsigned)(n - 1));
        for (size_t k = 0; k < n; k++) putpx(px[i + k]);
      }
      e.need = b.size();
      i += n;
    }
  }
  bool footer = r.p(0.4);
  if (footer) { le32(b, 0); le32(b, 0); put(b, "TRUEVISION-XFILE."); p8(b, 0); }
  snprintf(e.variant, sizeof e.variant, "tga-t%d-%dbit%s%s%s%s%s", type, psize * 8, base == 1 ? (cms == 32 ? "-cm32" : "-cm24") : "", right ? "-right" : "", top ? "-top" : "", footer ? "-footer" : "", b.size() < 44 ? "-small" : "");
  return e;
}

// ---------------------------------------------------------------- PNG
static void chunk(Bytes &b, const char *type, const Bytes &d) {
  be32(b, (uint32_t)d.size());
  Bytes t;
  put(t, type);
  t.insert(t.end(), d.begin(), d.end());
  b.insert(b.end(), t.begin(), t.end());
  uint32_t crc = 0xffffffffu;
  for (unsigned char c : t) {
    crc ^= c;
    for (int k = 0; k < 8; k++) crc = (crc & 1) ? 0xEDB88320u ^ (crc >> 1) : crc >> 1;
  }
  be32(b, crc ^ 0xffffffffu);
}
static Encoded enc_png(Rng &r, int maxdim) {
  Encoded e;
  e.suffix = "png";
  int w, h;
  rand_dims(r, maxdim, w, h);
  static const int cts[] = {0, 2, 3, 4, 6};
  int ct = cts[r.u(5)];
  std::vector<int> depths;
  if (ct == 0) depths = {1, 2, 4, 8, 16};
  else if (ct == 3) depths = {1, 2, 4, 8};
  else depths = {8, 16};
  int depth = r.pick(depths);
  bool inter = r.p(0.35), trns = r.p(0.4) && ct != 4 && ct != 6;
  int ch = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4;
  int np = ct == 0 || ct == 4 ? 1 : 3;
  e.exp = Img(w, h, np);
  std::vector<uint32_t> v((size_t)w * h * ch);
  uint32_t lim = depth == 16 ? 65536u : 1u << depth;
  std::vector<RGB> pal;
  if (ct == 3) {
    int n = r.range(1, (int)lim);
    for (int i = 0; i < n; i++) pal.push_back(RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)});
    lim = (uint32_t)n;
  }
  for (auto &x : v) x = r.u(lim);
  auto to8 = [&](uint32_t q) -> unsigned char { return depth == 16 ? (unsigned char)(q >> 8) : (unsigned char)(q * 255 / ((1u << depth) - 1)); };
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    const uint32_t *s = &v[((size_t)y * w + x) * ch];
    if (ct == 3) e.exp.set(x, y, pal[s[0]]);
    else if (np == 1) e.exp.set(x, y, RGB{to8(s[0]), 0, 0});
    else e.exp.set(x, y, RGB{to8(s[0]), to8(s[1]), to8(s[2])});
  }
  Bytes raw;
  auto put_pass = [&](int x0, int y0, int dx, int dy) {
    int pw = (w - x0 + dx - 1) / dx, ph = (h - y0 + dy - 1) / dy;
    if (pw <= 0 || ph <= 0) return;
    Bytes prev;
    for (int j = 0; j < ph; j++) {
      Bytes row;
      unsigned acc = 0; int n = 0;
      for (int i = 0; i < pw; i++) for (int c = 0; c < ch; c++) {
        uint32_t q = v[((size_t)(y0 + j * dy) * w + (x0 + i * dx)) * ch + c];
        if (depth == 16) { p8(row, q >> 8); p8(row, q & 255); }
        else if (depth == 8) p8(row, q);
        else { acc = acc << depth | q; n += depth; if (n == 8) { p8(row, acc); acc = 0; n = 0; } }
      }
      if (n) p8(row, (acc << (8 - n)) & 255);
      int bpp = std::max(1, ch * depth / 8);
      int f = (int)r.u(5);
      p8(raw, (unsigned)f);
      for (size_t i = 0; i < row.size(); i++) {
        int a = i >= (size_t)bpp ? row[i - bpp] : 0, up = prev.empty() ? 0 : prev[i], ul = (prev.empty() || i < (size_t)bpp) ? 0 : prev[i - bpp], pr = 0;
        switch (f) {
          case 1: pr = a; break;
          case 2: pr = up; break;
          case 3: pr = (a + up) / 2; break;
          case 4: { int p = a + up - ul, pa = abs(p - a), pb = abs(p - up), pc = abs(p - ul); pr = pa <= pb && pa <= pc ? a : pb <= pc ? up : ul; break; }
        }
        p8(raw, (unsigned)((row[i] - pr) & 255));
      }
      prev = row;
    }
  };
  if (!inter) put_pass(0, 0, 1, 1);
  else {
    static const int P[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
    for (auto &p : P) put_pass(p[0], p[1], p[2], p[3]);
  }
  static const unsigned char sig[8] = {137, 80, 78, 71, 13, 10, 26, 10};
  Bytes &b = e.data;
  b.insert(b.end(), sig, sig + 8);
  Bytes d;
  be32(d, (uint32_t)w); be32(d, (uint32_t)h); p8(d, (unsigned)depth); p8(d, (unsigned)ct); p8(d, 0); p8(d, 0); p8(d, inter);
  chunk(b, "IHDR", d);
  if (r.p(0.3)) { d.clear(); be32(d, 45455); chunk(b, "gAMA", d); }
  if (ct == 3) { d.clear(); for (auto c : pal) { p8(d, c.r); p8(d, c.g); p8(d, c.b); } chunk(b, "PLTE", d); }
  if (trns) {
    d.clear();
    if (ct == 3) { int n = r.range(1, (int)pal.size()); for (int i = 0; i < n; i++) p8(d, r.u(256)); }
    else for (int i = 0; i < ch; i++) { uint32_t q = v[(size_t)i]; p8(d, q >> 8); p8(d, q & 255); }
    chunk(b, "tRNS", d);
  }
  if (r.p(0.2)) { d.clear(); if (ct == 3) p8(d, 0); else for (int i = 0; i < (np == 1 ? 1 : 3); i++) { p8(d, 0); p8(d, 1); } chunk(b, "bKGD", d); }
  if (r.p(0.2)) { d.clear(); put(d, "Comment"); p8(d, 0); put(d, "hello"); chunk(b, "tEXt", d); }
  Bytes z;
  z.resize(compressBound((uLong)raw.size()));
  uLongf zl = (uLongf)z.size();
  unpoison(raw.data(), raw.size());
  compress2(z.data(), &zl, raw.data(), (uLong)raw.size(), r.p(0.5) ? 0 : 6);
  unpoison(z.data(), z.size());
  z.resize(zl);
  e.body = b.size();
  size_t parts = (size_t)r.range(1, 3), pos = 0;
  for (size_t i = 0; i < parts; i++) {
    size_t n = i + 1 == parts ? z.size() - pos : std::min(z.size() - pos, (size_t)r.u((uint32_t)z.size() + 1));
    d.assign(z.begin() + (long)pos, z.begin() + (long)(pos + n));
    chunk(b, "IDAT", d);
    pos += n;
  }
  e.need = b.size() - 4 - 4 - 3;       // everything but the checksums and the last deflate bytes
  d.clear();
  chunk(b, "IEND", d);
  snprintf(e.variant, sizeof e.variant, "png-ct%d-%dbit%s%s", ct, depth, inter ? "-adam7" : "", trns ? "-trns" : "");
  return e;
}

// ---------------------------------------------------------------- GF
struct GfChar { int code; Img im; int minc, maxc, minr, maxr; size_t start, paint_end; long advance = 0; };
static void gf_special(Rng &r, Bytes &b) {
  switch (r.u(4)) {
    case 0: { int n = (int)r.u(6); p8(b, 239); p8(b, (unsigned)n); for (int i = 0; i < n; i++) p8(b, r.u(256)); break; }
    case 1: { int n = (int)r.u(6); p8(b, 240); p8(b, 0); p8(b, (unsigned)n); for (int i = 0; i < n; i++) p8(b, r.u(256)); break; }
    case 2: p8(b, 243); be32(b, (uint32_t)r.next()); break;
    default: p8(b, 244);
  }
}
static void gf_count(Bytes &b, int op0, unsigned n) {     // op0: first of the 1,2,3 byte opcodes
  if (n < 256) { p8(b, (unsigned)op0); p8(b, n); }
  else if (n < 65536) { p8(b, (unsigned)op0 + 1); p8(b, n >> 8); p8(b, n & 255); }
  else { p8(b, (unsigned)op0 + 2); p8(b, n >> 16); p8(b, n >> 8 & 255); p8(b, n & 255); }
}
static Encoded enc_gf(Rng &r, int maxdim) {
  Encoded e;
  e.suffix = "gf";
  Bytes &b = e.data;
  p8(b, 247); p8(b, 131);
  int nl = (int)r.u(20);
  p8(b, (unsigned)nl);
  for (int i = 0; i < nl; i++) p8(b, r.u(256));
  int nch = r.range(1, 3);
  std::vector<GfChar> cs;
  for (int k = 0; k < nch; k++) {
    GfChar c;
    do { c.code = r.range(1, 255); } while ([&] { for (auto &o : cs) if (o.code == c.code) return true; return false; }());
    int w, h;
    rand_dims(r, maxdim, w, h);
    Img full(w, h, 1);
    std::vector<int> v = rand_index(r, w, h, r.p(0.3) ? 6 : 2);
    bool any = false;
    for (size_t i = 0; i < v.size(); i++) { full.px[i] = v[i] == 1 ? 255 : 0; any |= v[i] == 1; }
    if (!any) { full.px[full.px.size() / 2] = 255; }
    bool boc1 = w < 256 && h <= 256 && r.p(0.5);
    if (boc1) { c.maxc = r.range(0, 255); c.maxr = r.range(0, 255); }
    else { c.maxc = r.range(-300, 300); c.maxr = r.range(-300, 300); }
    c.minc = c.maxc - w; c.minr = c.maxr - (h - 1);
    while (r.p(0.2)) { if (r.p(0.5)) { int n = (int)r.u(6); p8(b, 239); p8(b, (unsigned)n); for (int i = 0; i < n; i++) p8(b, r.u(256)); } else { p8(b, 243); be32(b, (uint32_t)r.next()); } }
    c.start = b.size();
    if (boc1) { p8(b, 68); p8(b, (unsigned)c.code); p8(b, (unsigned)w); p8(b, (unsigned)c.maxc); p8(b, (unsigned)(h - 1)); p8(b, (unsigned)c.maxr); }
    else { p8(b, 67); be32(b, (uint32_t)c.code); be32(b, 0xffffffffu); be32(b, (uint32_t)c.minc); be32(b, (uint32_t)c.maxc); be32(b, (uint32_t)c.minr); be32(b, (uint32_t)c.maxr); }
    int y = 0;
    bool atstart = true;
    while (y < h) {
      // paint the row
      int x = 0; bool black = false;
      const unsigned char *row = &full.px[(size_t)y * w];
      int lead = 0;
      while (lead < w && !row[lead]) lead++;
      if (lead == w && !atstart) { /* blank row already entered */ }
      int last = w;
      while (last > 0 && !row[last - 1]) last--;
      while (x < last) {
        int n = 0;
        while (x + n < last && (row[x + n] != 0) == black) n++;
        if (n < 64 && r.p(0.8)) p8(b, (unsigned)n); else gf_count(b, 64, (unsigned)n);
        x += n;
        black = !black;
        if (r.p(0.05)) gf_special(r, b);
      }
      c.paint_end = b.size();
      atstart = false;
      // next row with something on it
      int ny = y + 1;
      while (ny < h) { bool blank = true; for (int i = 0; i < w; i++) if (full.px[(size_t)ny * w + i]) blank = false; if (!blank) break; ny++; }
      if (ny >= h) break;
      int skip = ny - y - 1;
      int nlead = 0;
      while (!full.px[(size_t)ny * w + nlead]) nlead++;
      if (skip == 0 && nlead <= 164 && r.p(0.6)) {
        // new_row: continue painting black at column nlead
        p8(b, (unsigned)(74 + nlead));
        y = ny;
        const unsigned char *rw = &full.px[(size_t)y * w];
        int xx = nlead; bool bl = true;
        int la = w;
        while (la > 0 && !rw[la - 1]) la--;
        while (xx < la) {
          int n = 0;
          while (xx + n < la && (rw[xx + n] != 0) == bl) n++;
          if (n < 64 && r.p(0.8)) p8(b, (unsigned)n); else gf_count(b, 64, (unsigned)n);
          xx += n;
          bl = !bl;
        }
        c.paint_end = b.size();
        // move on from here without repainting
        int my = y + 1;
        while (my < h) { bool blank = true; for (int i = 0; i < w; i++) if (full.px[(size_t)my * w + i]) blank = false; if (!blank) break; my++; }
        if (my >= h) break;
        int sk = my - y - 1;
        if (sk == 0) p8(b, 70); else gf_count(b, 71, (unsigned)sk);
        y = my;
        continue;
      }
      if (skip == 0) p8(b, 70); else gf_count(b, 71, (unsigned)skip);
      y = ny;
    }
    if (r.p(0.1)) p8(b, 244);
    p8(b, 69);
    // tight crop
    int x0 = w, x1 = -1, y0 = h, y1 = -1;
    for (int yy = 0; yy < h; yy++) for (int xx = 0; xx < w; xx++) if (full.px[(size_t)yy * w + xx]) { x0 = std::min(x0, xx); x1 = std::max(x1, xx); y0 = std::min(y0, yy); y1 = std::max(y1, yy); }
    c.im = Img(x1 - x0 + 1, y1 - y0 + 1, 1);
    for (int yy = y0; yy <= y1; yy++) for (int xx = x0; xx <= x1; xx++) c.im.px[(size_t)(yy - y0) * c.im.w + (xx - x0)] = full.px[(size_t)yy * w + xx];
    c.maxc = c.minc + x1 + 1; c.minc += x0; c.minr = c.maxr - y1; c.maxr -= y0;      // of what is black; the right one is an edge
    cs.push_back(c);
  }
  size_t post = b.size();
  p8(b, 248);
  uint32_t points = r.p(0.5) ? 10u << 20 : (uint32_t)r.range(1 << 18, 100 << 20), res = r.p(0.5) ? 5u << 16 : (uint32_t)r.range(1 << 14, 40 << 16);
  e.design = points / 1048576.0 * (res / 65536.0);
  be32(b, (uint32_t)post - 1); be32(b, points); be32(b, 0x12345678); be32(b, r.p(0.7) ? res : 3 << 16); be32(b, res);
  be32(b, 0xfffffff0u); be32(b, 100); be32(b, 0xfffffff0u); be32(b, 100);
  for (auto &c : cs) {
    if (r.p(0.5)) { int32_t dx = r.range(0, r.p(0.5) ? 60 : 900) * 65536 + (r.p(0.5) ? 0 : r.range(-30000, 30000)); dx = std::max(dx, 0); p8(b, 245); p8(b, (unsigned)c.code); be32(b, (uint32_t)dx); be32(b, 0); c.advance = (long)floor(dx / 65536.0 + 0.5); }
    else { c.advance = r.range(0, 255); p8(b, 246); p8(b, (unsigned)c.code); p8(b, (unsigned)c.advance); }
    be32(b, 0x1000); be32(b, (uint32_t)c.start);
  }
  p8(b, 249); be32(b, (uint32_t)post); p8(b, 131);
  int pad = 4 + (int)((4 - (b.size() + 4) % 4) % 4);
  for (int i = 0; i < pad; i++) p8(b, 223);
  size_t pick = r.u((uint32_t)cs.size());
  if (r.p(0.4)) {         // first character of the font
    size_t m = 0;
    for (size_t i = 0; i < cs.size(); i++) if (cs[i].code < cs[m].code) m = i;
    e.charcode = 0; e.exp = cs[m].im; pick = m;
  } else { e.charcode = cs[pick].code; e.exp = cs[pick].im; }
  e.glyph = Glyph{cs[pick].code, cs[pick].minc, cs[pick].maxc, cs[pick].minr, cs[pick].maxr, cs[pick].advance};
  e.body = cs[0].start;
  e.need = b.size() - (size_t)pad;     // the postamble is needed to find anything
  snprintf(e.variant, sizeof e.variant, "gf-%dchars%s", nch, e.charcode ? "" : "-first");
  return e;
}

Encoded gen_encoded(Rng &r, int fmt, int maxdim) {
  Encoded e;
  switch (fmt) {
    case 0: e = enc_pnm(r, maxdim); break;
    case 1: e = enc_bmp(r, maxdim); break;
    case 2: e = enc_tga(r, maxdim); break;
    case 3: e = enc_png(r, maxdim); break;
    default: e = enc_gf(r, maxdim); break;
  }
  return e;
}

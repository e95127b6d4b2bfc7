// C01, C02, C03: the bitmap readers.
#include "vh.hpp"
#include <sys/stat.h>
#include <unistd.h>

static at_bitmap *read_with(const char *suffix, const char *path, int charcode, RGB *bg, Msgs &m) {
  at_bitmap_reader *rd = reader(suffix);
  if (!rd) return nullptr;
  at_input_opts_type *o = at_input_opts_new();
  unpoison(o, sizeof *o);
  o->charcode = (unsigned)charcode;
  if (bg) o->background_color = at_color_new(bg->r, bg->g, bg->b);
  char p[700];
  snprintf(p, sizeof p, "%s", path);
  at_bitmap *b = at_bitmap_read(rd, p, o, msg_cb, &m);
  at_input_opts_free(o);
  return b;
}
static const uint32_t INTERESTING[] = {0, 1, 2, 3, 7, 8, 16, 24, 32, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 65537,
                                       0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xffff0000u, 0x00010001u, 0xff000000u};
void mutate(Rng &r, Bytes &d, size_t body) {
  int n = r.range(1, 4);
  for (int k = 0; k < n; k++) {
    if (d.empty()) { d.push_back((unsigned char)r.u(256)); continue; }
    size_t lim = r.p(0.65) ? std::min(d.size(), body + 8) : d.size();
    size_t pos = r.u((uint32_t)std::max<size_t>(1, lim));
    switch (r.u(11)) {
      case 0: d[pos] ^= (unsigned char)(1u << r.u(8)); break;
      case 1: d[pos] = (unsigned char)r.u(256); break;
      case 2: case 3: {
        uint32_t v = INTERESTING[r.u(sizeof INTERESTING / sizeof *INTERESTING)];
        int len = r.p(0.5) ? 4 : r.p(0.7) ? 2 : 1;
        bool be = r.p(0.3);
        for (int i = 0; i < len && pos + i < d.size(); i++) d[pos + i] = (unsigned char)(v >> 8 * (be ? len - 1 - i : i));
        break;
      }
      case 4: d.resize(r.p(0.5) ? pos : r.u((uint32_t)d.size() + 1)); break;
      case 5: { size_t m = std::min(d.size() - pos, (size_t)r.range(1, 16)); d.erase(d.begin() + (long)pos, d.begin() + (long)(pos + m)); break; }
      case 6: { int m = r.range(1, 16); Bytes ins((size_t)m); for (auto &c : ins) c = (unsigned char)r.u(256); d.insert(d.begin() + (long)pos, ins.begin(), ins.end()); break; }
      case 7: { // change a decimal number (PNM headers)
        size_t i = 0, found = d.size(); int want = (int)r.u(4);
        for (i = 0; i < d.size() && i < body + 4; i++) if (d[i] >= '0' && d[i] <= '9' && (i == 0 || d[i - 1] < '0' || d[i - 1] > '9') && want-- == 0) { found = i; break; }
        if (found < d.size()) {
          size_t j = found;
          while (j < d.size() && d[j] >= '0' && d[j] <= '9') j++;
          char t[24];
          snprintf(t, sizeof t, "%u", INTERESTING[r.u(sizeof INTERESTING / sizeof *INTERESTING)]);
          d.erase(d.begin() + (long)found, d.begin() + (long)j);
          d.insert(d.begin() + (long)found, (unsigned char *)t, (unsigned char *)t + strlen(t));
        }
        break;
      }
      case 8: { // little-endian 32-bit header field slightly off
        pos &= ~(size_t)1;
        if (pos + 4 <= d.size()) {
          uint32_t v = d[pos] | d[pos + 1] << 8 | d[pos + 2] << 16 | (uint32_t)d[pos + 3] << 24;
          v += (uint32_t)r.range(-3, 3);
          for (int i = 0; i < 4; i++) d[pos + i] = (unsigned char)(v >> 8 * i);
        }
        break;
      }
      case 9: { size_t m = std::min(d.size() - pos, (size_t)r.range(1, 64)); for (size_t i = 0; i < m; i++) d[pos + i] = (unsigned char)r.u(256); break; }
      default: { Bytes c(d.begin() + (long)pos, d.begin() + (long)std::min(d.size(), pos + (size_t)r.range(1, 600))); d.insert(d.begin() + (long)pos, c.begin(), c.end()); }
    }
  }
}
void fix_png_crcs(Bytes &b) {
  size_t p = 8;
  while (p + 12 <= b.size()) {
    uint32_t n = (uint32_t)b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3];
    if (n > b.size() || p + 12 + n > b.size()) break;
    uint32_t crc = 0xffffffffu;
    for (size_t i = p + 4; i < p + 8 + n; i++) { crc ^= b[i]; for (int k = 0; k < 8; k++) crc = (crc & 1) ? 0xEDB88320u ^ (crc >> 1) : crc >> 1; }
    crc ^= 0xffffffffu;
    for (int i = 0; i < 4; i++) b[p + 8 + n + i] = (unsigned char)(crc >> 8 * (3 - i));
    p += 12 + n;
  }
}
static void judge_result(at_bitmap *b, const Msgs &m, const char *what) {
  if (!b) { report("null-bitmap", "%s: at_bitmap_read returned NULL", what); return; }
  size_t n = (size_t)b->width * b->height * b->np;
  if (n == 0) { count("reads_empty"); return; }
  count("reads_with_pixels");
  if (b->np != 1 && b->np != 3) report("bad-planes", "%s: %u planes", what, b->np);
  if (n <= (64u << 20)) {
    if (!all_addressable(b->bitmap, n)) report("short-bitmap", "%s: %ux%ux%u bitmap is not completely allocated", what, b->width, b->height, b->np);
    else if (!all_initialised(b->bitmap, n)) report("uninitialised-pixels", "%s: %ux%ux%u bitmap has uninitialised pixels (messages: %d)", what, b->width, b->height, b->np, m.total());
    else count("pixels_verified", (double)n / b->np);
  }
}

MODE(read) {
  Rng &r = c.rng;
  int fmt = (int)r.u((uint32_t)NENC);
#if VARIANT_msan
  if (fmt == 3) fmt = (int)r.u(3);      // libpng is not instrumented
#endif
  Encoded e = gen_encoded(r, fmt, r.p(0.1) ? 300 : 24);
  const char *suffix = e.suffix;
  Bytes d = e.data;
  if (r.p(0.05)) { d.resize(r.u(200)); for (auto &x : d) x = (unsigned char)r.u(256); if (d.size() > 2 && r.p(0.7)) { d[0] = e.data[0]; d[1] = e.data[1]; } }
  else if (!r.p(0.08)) mutate(r, d, e.body);
  if (fmt == 3 && r.p(0.8)) fix_png_crcs(d);
  if (r.p(0.1)) { static const char *const all[] = {"png", "tga", "pnm", "bmp", "gf"}; suffix = all[r.u(5)]; }
#if VARIANT_msan
  if (!strcmp(suffix, "png")) suffix = "bmp";
#endif
  int charcode = r.p(0.7) ? e.charcode : (int)r.u(300);
  const char *path = scratch_path("in.img");
  write_file(path, d.data(), d.size());
  use_hash(hash_bytes(d.data(), d.size()));
  use_hash(hash_bytes(suffix, strlen(suffix)));
  say("reader %s variant %s size %zu\n", suffix, e.variant, d.size());
  Msgs m;
  RGB bg{1, 2, 3};
  at_bitmap *b = read_with(suffix, path, charcode, r.p(0.3) ? &bg : nullptr, m);
  count(m.fatal ? "reads_fatal" : m.warning ? "reads_warning" : "reads_silent");
  char nm[40];
  snprintf(nm, sizeof nm, "reads_%s", suffix);
  count(nm);
  judge_result(b, m, suffix);
  if (b) { c.nontrivial = d.size() > 0; sample("%s reader on %zu bytes (%s, mutated): %ux%ux%u, %d fatal %d warning \"%s\"", suffix, d.size(), e.variant, b->width, b->height, b->np, m.fatal, m.warning, m.first); at_bitmap_free(b); }
}

// Well-formed files with one or two header fields set to telling values, and enough bytes behind to satisfy larger counts.
MODE(fields) {
  Rng &r = c.rng;
  int fmt = (int)(c.idx % NENC);
#if VARIANT_msan
  if (fmt == 3) fmt = (int)r.u(3);
#endif
  Encoded e = gen_encoded(r, fmt, r.p(0.2) ? 40 : 9);
  static const uint32_t COUNTS[] = {0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 600, 768, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 32767, 32768, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xffffff00u};
  const char *path = scratch_path("in.img");
  size_t head = std::min(e.data.size(), std::max<size_t>(e.body, 20) + 8);
  Bytes more((size_t)(r.p(0.3) ? 0 : r.range(1, 6000)));
  for (auto &x : more) x = (unsigned char)(r.p(0.5) ? r.u(256) : r.u(4));
  bool at_end = r.p(0.6);
  for (int k = 0; k < 24 && !reported_any(); k++) {
    Bytes d = e.data;
    for (int n = r.p(0.75) ? 1 : 2; n--;) {
      size_t pos = r.u((uint32_t)head);
      if (fmt == 1) pos &= ~(size_t)1;
      uint32_t v = COUNTS[r.u(sizeof COUNTS / sizeof *COUNTS)];
      if (r.p(0.15)) v = (uint32_t)(r.p(0.5) ? d.size() : (size_t)e.exp.w * (size_t)e.exp.h * (size_t)r.range(1, 4)) + (uint32_t)r.range(-2, 2);
      if (fmt == 0) {             // a number in the header
        size_t a = std::min(pos, d.size()), z;
        while (a < d.size() && !(d[a] >= '0' && d[a] <= '9')) a++;
        for (z = a; z < d.size() && d[z] >= '0' && d[z] <= '9';) z++;
        char t[24];
        int n = snprintf(t, sizeof t, "%s%u", r.p(0.03) ? "-" : "", v);
        d.erase(d.begin() + (long)a, d.begin() + (long)z);
        d.insert(d.begin() + (long)a, (unsigned char *)t, (unsigned char *)t + n);
        continue;
      }
      int len = r.p(0.4) ? 4 : r.p(0.6) ? 2 : 1;
      bool be = fmt == 3 || fmt == 4 ? r.p(0.9) : r.p(0.1);
      for (int i = 0; i < len && pos + (size_t)i < d.size(); i++) d[pos + (size_t)i] = (unsigned char)(v >> 8 * (be ? len - 1 - i : i));
    }
    if (at_end) d.insert(d.end(), more.begin(), more.end());
    else d.insert(d.begin() + (long)std::min(d.size(), e.body), more.begin(), more.end());
    if (fmt == 3) fix_png_crcs(d);
    write_file(path, d.data(), d.size());
    use_hash(hash_bytes(d.data(), d.size()));
    say("reader %s variant %s size %zu\n", e.suffix, e.variant, d.size());
    Msgs m;
    at_bitmap *b = read_with(e.suffix, path, e.charcode, nullptr, m);
    count("reads_with_changed_fields");
    judge_result(b, m, e.suffix);
    if (b) { c.nontrivial = true; if (k == 0) sample("%s %s with a changed header field: %ux%ux%u, %d fatal %d warning \"%s\"", e.suffix, e.variant, b->width, b->height, b->np, m.fatal, m.warning, m.first); at_bitmap_free(b); }
  }
}

MODE(decode) {
  Rng &r = c.rng;
  int fmt = (int)(c.idx % NENC);
#if VARIANT_msan
  if (fmt == 3) fmt = 1;
#endif
  Encoded e = gen_encoded(r, fmt, r.p(c.thorough ? 0.1 : 0.03) ? 700 : 40);
  const char *path = scratch_path("in.img");
  write_file(path, e.data.data(), e.data.size());
  use_hash(hash_bytes(e.data.data(), e.data.size()));
  say("variant %s %dx%d size %zu\n", e.variant, e.exp.w, e.exp.h, e.data.size());
  Msgs m;
  RGB bg{9, 200, 70};
  at_bitmap *b = read_with(e.suffix, path, e.charcode, r.p(0.3) ? &bg : nullptr, m);
  if (!b) return;
  c.nontrivial = true;
  char nm[100];
  snprintf(nm, sizeof nm, "variant:%s", e.variant);
  if (m.fatal) report("fatal-on-valid", "%s: intact file gives fatal \"%s\"", e.variant, m.first);
  else if (b->width != e.exp.w || b->height != e.exp.h) report("wrong-size", "%s: %ux%u, encoded %dx%d", e.variant, b->width, b->height, e.exp.w, e.exp.h);
  else if (b->np != 1 && b->np != 3) report("wrong-planes", "%s: %u planes", e.variant, b->np);
  else if (!all_addressable(b->bitmap, (size_t)b->width * b->height * b->np)) report("short-bitmap", "%s", e.variant);
  else {
    Img got = from_bitmap(b);
    bool lax = !strncmp(e.variant, "pnm", 3) && !strstr(e.variant, "max255");
    bool done = false;
    for (int y = 0; y < got.h && !done; y++) for (int x = 0; x < got.w && !done; x++) {
      RGB a = e.exp.at(x, y), g = got.at(x, y);
      bool ok = a == g;
      if (!ok && lax) {
        auto near = [](int ex, int v) { return v == ex || (v == ex + 1 && ex != 0 && ex != 255); };
        ok = near(a.r, g.r) && near(a.g, g.g) && near(a.b, g.b);
      }
      if (!ok) { report("wrong-pixel", "%s: pixel (%d,%d) of %dx%d is %02x%02x%02x, encoded %02x%02x%02x", e.variant, x, y, got.w, got.h, g.r, g.g, g.b, a.r, a.g, a.b); done = true; }
    }
    count("pixels_compared", (double)got.w * got.h);
    count(nm);
    sample("%s %dx%d: every pixel as encoded", e.variant, got.w, got.h);
  }
  at_bitmap_free(b);
}

MODE(truncated) {
  Rng &r = c.rng;
  int fmt = (int)(c.idx % NENC);
  Encoded e = gen_encoded(r, fmt, 20);
  const char *path = scratch_path("in.img");
  int kind = (int)r.u(12);
  const char *suffix = e.suffix;
  char what[160];
  Msgs m;
  at_bitmap *b = nullptr;
  if (kind < 8) {
    // cut points: all of them when thorough and the file is small, else a sample
    std::vector<size_t> cuts;
    if (e.need <= (c.thorough ? 400u : 60u)) for (size_t i = 0; i < e.need; i++) cuts.push_back(i);
    else {
      int n = c.thorough ? 120 : 24;
      for (int i = 0; i < n; i++) cuts.push_back(r.u((uint32_t)e.need));
      cuts.push_back(e.need - 1); cuts.push_back(e.body); cuts.push_back(e.body ? e.body - 1 : 0); cuts.push_back(0);
      if (e.need > e.body + 1) cuts.push_back(e.body + 1);
    }
    for (size_t cut : cuts) {
      write_file(path, e.data.data(), cut);
      Msgs mm;
      b = read_with(suffix, path, e.charcode, nullptr, mm);
      if (!mm.total()) report("silent-truncation", "%s: %zu bytes of the %zu needed (pixels start at %zu) are read without any message", e.variant, cut, e.need, e.body);
      count("truncations");
      if (b) at_bitmap_free(b);
      if (reported_any()) break;
    }
    use_hash(hash_bytes(e.data.data(), e.data.size()));
    c.nontrivial = true;
    sample("%s, %zu bytes needed: %zu cut points, each reported", e.variant, e.need, cuts.size());
    return;
  }
  if (kind == 8) {
    snprintf(what, sizeof what, "missing file");
    char p[700];
    snprintf(p, sizeof p, "%s/nothing-here-%ld", c.scratch, c.idx);
    b = read_with(suffix, p, 0, nullptr, m);
  } else if (kind == 9) {
    snprintf(what, sizeof what, "directory");
    b = read_with(suffix, c.scratch, 0, nullptr, m);
  } else if (kind == 10) {
    int other = (fmt + r.range(1, NENC - 1)) % NENC;
    if (other == 2) other = fmt == 0 ? 1 : 0;                   // TGA files have no magic number
    if (other == fmt) other = 3;
    static const char *const sfx[] = {"pnm", "bmp", "tga", "png", "gf"};
    suffix = sfx[other];
    snprintf(what, sizeof what, "%s file given to the %s reader", e.variant, suffix);
    write_file(path, e.data.data(), e.data.size());
    b = read_with(suffix, path, 0, nullptr, m);
  } else {
    snprintf(what, sizeof what, "intact %s", e.variant);
    write_file(path, e.data.data(), e.data.size());
    b = read_with(suffix, path, e.charcode, nullptr, m);
    if (m.fatal) report("fatal-on-valid", "%s gives fatal \"%s\"", what, m.first);
    if (b) at_bitmap_free(b);
    count("intact_reads");
    use_hash(hash_bytes(e.data.data(), e.data.size()));
    c.nontrivial = true;
    return;
  }
  if (!m.total()) report("silent-failure", "%s: no message from the %s reader", what, suffix);
  count("unusable_inputs");
  sample("%s, %s reader: \"%s\"", what, suffix, m.first);
  use_hash(hash_bytes(what, strlen(what)));
  c.nontrivial = true;
  if (b) at_bitmap_free(b);
}

// Looking up readers and writers by suffix and by file name: suffix (C22).
#include "vh.hpp"
#include <locale.h>

// --arg: "png,tga,...:svg,eps,...", the formats the program lists, optionally followed by ":locale"
static std::vector<const char *> g_in, g_out;
static void parse_lists(const char *arg) {
  static char buf[4000];
  snprintf(buf, sizeof buf, "%s", arg);
  std::vector<const char *> *l = &g_in;
  char *p = buf;
  if (!*p) harness_error("mode suffix needs the lists of formats");
  while (p) {
    char *e = strpbrk(p, ",:");
    char sep = e ? *e : 0;
    if (e) *e = 0;
    if (*p && l) l->push_back(p);
    if (sep == ':') l = l == &g_in ? &g_out : nullptr;
    p = e ? e + 1 : nullptr;
  }
}
static bool listed(const std::vector<const char *> &l, const char *s) {
  for (const char *x : l) {
    size_t i = 0;
    for (; x[i] && s[i]; i++) { char c = s[i]; if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a'); if (c != x[i]) break; }
    if (!x[i] && !s[i]) return true;
  }
  return false;
}
static void show(const char *s, char *out, size_t n) {
  size_t k = 0;
  for (; *s && k + 6 < n; s++) if (*s > 32 && *s < 127) out[k++] = *s; else k += (size_t)snprintf(out + k, n - k, "\\x%02x", (unsigned char)*s);
  out[k] = 0;
}
// the handler a suffix must always give
static const void *g_first_in[64], *g_first_out[64];
static const void **first_of(const std::vector<const char *> &l, const void **tab, const char *s) {
  for (size_t i = 0; i < l.size() && i < 64; i++) { std::vector<const char *> one{l[i]}; if (listed(one, s)) return &tab[i]; }
  return nullptr;
}
static void judge(const char *s, const void *h, bool in, const char *how, const char *whole) {
  bool want = s && *s && listed(in ? g_in : g_out, s);
  char t[300];
  show(whole, t, sizeof t);
  const char *what = in ? "reader" : "writer";
  count("lookups");
  if (want) count("lookups_found");
  if (want && !h) report("not-found", "no %s %s \"%s\"", what, how, t);
  else if (!want && h) report("found", "a %s %s \"%s\"", what, how, t);
  else if (want) {
    const void **f = first_of(in ? g_in : g_out, in ? g_first_in : g_first_out, s);
    if (f && !*f) *f = h;
    else if (f && *f != h) report("other-handler", "the %s %s \"%s\" is another one than before", what, how, t);
  }
}
static char *heap_copy(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }   // so that ASan sees reads past the end
static void by_suffix(const char *s) {
  char *p = heap_copy(s);
  const void *a = at_input_get_handler_by_suffix(p), *b = at_output_get_handler_by_suffix(p);
  if (strcmp(p, s)) report("argument-changed", "the lookup changed the suffix %s", s);
  judge(s, a, true, "for suffix", s);
  judge(s, b, false, "for suffix", s);
  free(p);
}
static void by_name(const char *s) {
  const char *base = strrchr(s, '/');
  base = base ? base + 1 : s;
  const char *dot = strrchr(base, '.');
  const char *suf = dot ? dot + 1 : "";
  char *p = heap_copy(s);
  const void *a = at_input_get_handler(p), *b = at_output_get_handler(p);
  if (strcmp(p, s)) report("argument-changed", "the lookup changed the name %s", s);
  judge(suf, a, true, "for file", s);
  judge(suf, b, false, "for file", s);
  free(p);
}
static void random_case(Rng &r, char *s) { for (; *s; s++) if (*s >= 'a' && *s <= 'z' && r.p(0.5)) *s = (char)(*s - 'a' + 'A'); }
MODE(suffix) {
  Rng &r = c.rng;
  if (g_in.empty()) {
    parse_lists(c.arg);
    if (strstr(c.arg, ":locale") && !setlocale(LC_ALL, "")) harness_error("the locale cannot be used");
  }
  static const char AL[] = "abcdefghijklmnopqrstuvwxyz0123456789.-_ /";
  const int NA = sizeof AL - 1;
  // the first cases enumerate all suffixes of up to three characters, and names ending in them
  if (c.idx < NA) {
    char t[8], f[16];
    for (int j = -1; j < NA; j++) for (int k = j < 0 ? -1 : -1; k < (j < 0 ? 0 : NA); k++) {
      t[0] = AL[c.idx]; t[1] = j < 0 ? 0 : AL[j]; t[2] = j < 0 || k < 0 ? 0 : AL[k]; t[3] = 0;
      by_suffix(t);
      snprintf(f, sizeof f, "x.%s", t);
      by_name(f);
      by_name(t);
      if (reported_any()) return;
    }
    c.nontrivial = true;
    use_hash((uint64_t)c.idx);
    sample("all suffixes of up to three characters starting with '%c'", AL[c.idx]);
    return;
  }
  char s[300] = "", t[600];
  int kind = (int)r.u(6);
  const std::vector<const char *> &l = r.p(0.4) ? g_in : g_out;
  snprintf(s, sizeof s, "%s", l[r.u((uint32_t)l.size())]);
  if (kind == 1) { int n = r.range(1, 2); for (int i = 0; i < n; i++) { size_t k = r.u((uint32_t)strlen(s) + 1); if (r.p(0.5) || !s[k]) { memmove(s + k + 1, s + k, strlen(s + k) + 1); s[k] = AL[r.u((uint32_t)NA)]; } else if (r.p(0.5)) memmove(s + k, s + k + 1, strlen(s + k)); else s[k] = (char)r.range(1, 255); } }
  if (kind == 2) { int n = r.range(0, r.p(0.9) ? 6 : 200); for (int i = 0; i < n; i++) s[i] = (char)r.range(1, 255); s[n] = 0; }
  if (kind == 3) s[0] = 0;
  if (kind == 4 && strlen(s) > 1) s[strlen(s) - 1] = 0;
  random_case(r, s);
  for (char *q = s; *q; q++) if (*q == '/' && r.p(0.8)) *q = 'p';
  by_suffix(s);
  static const char *const PRE[] = {"", "x", "/", "./", "../a", "dir.svg/", "dir.bmp/x", "/tmp/a.b/c", "a.b.c", ".", "..", "a.png/", "/x.y/z", "weird\\name.svg\\x"};
  const char *pre = PRE[r.u(sizeof PRE / sizeof *PRE)];
  snprintf(t, sizeof t, "%s%s%s", pre, r.p(0.8) ? "." : "", s);
  by_name(t);
  if (r.p(0.1)) { strncat(t, r.p(0.5) ? "." : "/", 2); by_name(t); }
  if (r.p(0.05)) { if (at_input_get_handler_by_suffix(nullptr) || at_output_get_handler_by_suffix(nullptr)) report("found", "a handler for no suffix"); by_suffix(""); by_name(""); }
  if (r.p(0.1)) { autotrace_init(); count("reinitialised"); }
  c.nontrivial = true;
  use_hash(hash_bytes(t, strlen(t)));
  char d[300];
  show(t, d, sizeof d);
  sample("\"%s\"", d);
}

// Every handler reads or writes its own format: own (C22).
struct Sign { const char *suffix, *text; size_t at, n; };
static const Sign SIGNS[] = {
  {"eps", "%!PS-Adobe-3.0 EPSF", 0, 19}, {"ai", "%!PS-Adobe-3.0 EPSF", 0, 19}, {"p2e", "%!PS-Adobe-3.0\n", 0, 15}, {"sk", "##Sketch 1", 0, 10}, {"svg", "<?xml version", 0, 13},
  {"ugs", "symbol ", 0, 7}, {"fig", "#FIG 3.2", 0, 8}, {"emf", " EMF", 40, 4}, {"mif", "<MIFFile ", 0, 9}, {"er", "#Elastic Reality", 0, 16}, {"dxf", "  0\nSECTION", 0, 11}, {"epd", "%EPD-1.0", 0, 8},
  {"pdf", "%PDF-1", 0, 6}, {"cgm", "\x00", 0, 1}, {"dr2d", "DR2D", 8, 4}, {"pov", "prism", 0, 5}, {"plt", "IN;", 0, 3}, {"ild", "ILDA", 0, 4}};
MODE(own) {
  Rng &r = c.rng;
  char name[64];
  if (r.p(0.5)) {
    const Sign &g = SIGNS[c.idx % (long)(sizeof SIGNS / sizeof *SIGNS)];
    snprintf(name, sizeof name, "some.dir/%s.%s", r.p(0.5) ? "x" : "a.png", g.suffix);
    random_case(r, strrchr(name, '.') + 1);
    at_spline_writer *w = at_output_get_handler(name);
    if (!w) { report("not-found", "no writer for file \"%s\"", name); return; }
    SplineGen sg;
    sg.maxdim = 100;
    at_splines_type *s = gen_splines(r, sg);
    const char *path = scratch_path("own.out");
    FILE *f = fopen(path, "wb");
    if (!f) harness_error("cannot create %s", path);
    Msgs m;
    at_splines_write(w, f, name, nullptr, s, msg_cb, &m);
    fclose(f);
    Bytes out;
    read_file(path, out);
    if (!m.fatal && s->length) {
      if (out.size() < g.at + g.n || memcmp(out.data() + g.at, g.text, g.n)) report("other-format", "the writer for file \"%s\" did not write %s but \"%.20s\"", name, g.suffix, out.empty() ? "" : (out.push_back(0), (const char *)out.data()));
      else if (!strcmp(g.suffix, "cgm") && (out[1] & 0xe0) != 0x20) report("other-format", "the writer for file \"%s\" did not write CGM", name);
      count("outputs_recognised");
      c.nontrivial = true;
      use_hash(hash_bytes(out.data(), out.size()));
    }
    splines_deep_free(s);
  } else {
    Encoded e = gen_encoded(r, (int)(c.idx % NENC), 24);
    snprintf(name, sizeof name, "some.dir/x.%s", e.suffix);
    random_case(r, strrchr(name, '.') + 1);
    at_bitmap_reader *rd = at_input_get_handler(name);
    if (!rd) { report("not-found", "no reader for file \"%s\"", name); return; }
    const char *path = scratch_path("own.img");
    write_file(path, e.data.data(), e.data.size());
    char p[700];
    snprintf(p, sizeof p, "%s", path);
    at_input_opts_type *o = at_input_opts_new();
    o->charcode = (unsigned)e.charcode;
    Msgs m;
    at_bitmap *b = at_bitmap_read(rd, p, o, msg_cb, &m);
    at_input_opts_free(o);
    if (!b || b->width != e.exp.w || b->height != e.exp.h) report("other-format", "the reader for file \"%s\" read %dx%d from a %dx%d image (%s) \"%s\"", name, b ? b->width : 0, b ? b->height : 0, e.exp.w, e.exp.h, e.variant, m.first);
    count("inputs_recognised");
    c.nontrivial = true;
    use_hash(hash_bytes(e.data.data(), e.data.size()));
    if (b) at_bitmap_free(b);
  }
}

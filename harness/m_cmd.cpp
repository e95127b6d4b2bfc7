// What the library does for the arguments of a command line: job (C20, C21). The cases are the
// lines of the file given as argument: tab separated key=value pairs.
#include "geom.hpp"
#include <fstream>
#include <map>
#include <string>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
typedef std::map<std::string, std::string> Job;
std::vector<Job> g_jobs;
void load(const char *path) {
  std::ifstream f(path);
  std::string ln;
  while (std::getline(f, ln)) {
    Job j;
    size_t a = 0;
    while (a < ln.size()) {
      size_t b = ln.find('\t', a);
      if (b == std::string::npos) b = ln.size();
      size_t e = ln.find('=', a);
      if (e < b) j[ln.substr(a, e - a)] = ln.substr(e + 1, b - e - 1);
      a = b + 1;
    }
    g_jobs.push_back(j);
  }
}
// An input file from a generator seed. kind: an encoder number, or "draw" for a PNM worth tracing
void make_input(Job &j, int *charcode) {
  Rng r(strtoull(j["seed"].c_str(), 0, 10));
  r.next();
  Bytes d;
  if (j["kind"] == "draw" || j["kind"] == "noise") {
    GenOpt g;
    g.maxdim = 40;
    if (j["kind"] == "noise") g.np = 3;
    Img im = r.p(0.6) ? gen_strokes(r, g, true, RGB{255, 255, 255}) : gen_image(r, g);
    while (im.w < 4 || im.h < 4) im = gen_strokes(r, g, true, RGB{255, 255, 255});
    if (r.p(0.5)) for (int k = 0; k < 12; k++) im.set((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h), im.at((int)r.u((uint32_t)im.w), (int)r.u((uint32_t)im.h)));   // speckles
    if (j["kind"] == "noise")        // many similar colours, and a few pixels that stand out a little
      for (auto &p : im.px) { int v = p + r.range(-6, 6); if (r.p(0.08)) v += r.range(-60, 60); p = (unsigned char)(v < 0 ? 0 : v > 255 ? 255 : v); }
    char h[64];
    int n = snprintf(h, sizeof h, "P%c\n%d %d\n255\n", im.np == 1 ? '5' : '6', im.w, im.h);
    d.assign(h, h + n);
    d.insert(d.end(), im.px.begin(), im.px.end());
  } else {
    Encoded e = gen_encoded(r, atoi(j["kind"].c_str()), 24);
    d = e.data;
    *charcode = e.charcode;
    if (j.count("damage")) mutate(r, d, e.body);
  }
  write_file(j["in"].c_str(), d.data(), d.size());
}
const char *doit(Job &j, std::string &why, int charcode) {
  at_input_opts_type *io = at_input_opts_new();
  at_output_opts_type *oo = at_output_opts_new();
  at_fitting_opts_type *fo = at_fitting_opts_new();
  struct { const char *n; float *p; } fl[] = {{"corner-always-threshold", &fo->corner_always_threshold}, {"corner-threshold", &fo->corner_threshold}, {"despeckle-tightness", &fo->despeckle_tightness}, {"error-threshold", &fo->error_threshold},
    {"line-reversion-threshold", &fo->line_reversion_threshold}, {"line-threshold", &fo->line_threshold}, {"noise-removal", &fo->noise_removal}, {"width-weight-factor", &fo->width_weight_factor}};
  struct { const char *n; unsigned *p; } un[] = {{"color-count", &fo->color_count}, {"corner-surround", &fo->corner_surround}, {"despeckle-level", &fo->despeckle_level}, {"filter-iterations", &fo->filter_iterations}, {"tangent-surround", &fo->tangent_surround}};
  for (auto &x : fl) if (j.count(x.n)) *x.p = (float)strtod(j[x.n].c_str(), 0);
  for (auto &x : un) if (j.count(x.n)) *x.p = (unsigned)strtoul(j[x.n].c_str(), 0, 10);
  if (j.count("centerline")) fo->centerline = true;
  if (j.count("preserve-width")) fo->preserve_width = true;
  if (j.count("remove-adjacent-corners")) fo->remove_adjacent_corners = true;
  if (j.count("remove-knees")) fo->remove_knees = true;
  if (j.count("dpi")) oo->dpi = atoi(j["dpi"].c_str());
  if (j.count("charcode")) io->charcode = fo->charcode = j["charcode"] == "auto" ? (unsigned)charcode : (unsigned)strtoul(j["charcode"].c_str(), 0, 0);
  if (j.count("background-color")) {
    unsigned v = (unsigned)strtoul(j["background-color"].c_str(), 0, 16);
    RGB c{(unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v};
    fo->background_color = new_color(c);
    io->background_color = new_color(c);
  }
  at_bitmap_reader *rd = reader(j["informat"].c_str());
  at_spline_writer *w = writer(j["outformat"].c_str());
  if (!rd || !w) harness_error("job with unknown formats %s %s", j["informat"].c_str(), j["outformat"].c_str());
  Msgs m;
  std::string in = j["in"], name = j["name"];
  at_bitmap *b = at_bitmap_read(rd, &in[0], io, msg_cb, &m);
  if (m.fatal) { why = m.first; return "read"; }
  if ((size_t)b->width * b->height > 12000) return "skip";
  at_splines_type *s = at_splines_new_full(b, fo, msg_cb, &m, nullptr, nullptr, nullptr, nullptr);
  if (m.fatal || !s) { why = m.first; return "trace"; }
  FILE *f = fopen(j["out"].c_str(), "wb");
  if (!f) harness_error("cannot create %s", j["out"].c_str());
  at_splines_write(w, f, &name[0], oo, s, msg_cb, &m);
  fclose(f);
  if (m.fatal) { why = m.first; return "write"; }
  return "ok";
}
}
MODE(job) {
  if (g_jobs.empty()) load(c.arg);
  if (c.idx >= (long)g_jobs.size()) return;
  Job &j = g_jobs[(size_t)c.idx];
  // a process of its own, so that a job depends on nothing earlier
  pid_t pid = fork();
  if (pid < 0) harness_error("fork failed");
  if (!pid) {
    struct itimerval tv = {{0, 0}, {g_cpu, 0}};
    setitimer(ITIMER_PROF, &tv, 0);
    int charcode = 0;
    if (j.count("seed")) make_input(j, &charcode);
    std::string why;
    const char *st = doit(j, why, charcode);
    std::string t = std::string(st) + "\n" + std::to_string(charcode) + "\n" + why + "\n";
    write_file((j["out"] + ".status").c_str(), t.data(), t.size());
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) _exit(86);
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}

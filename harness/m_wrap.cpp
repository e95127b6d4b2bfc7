// The C++ wrapper (C23): its options as JSON (wrapjson), copies of them (wrapcopy), its
// conversions (wrapout) and the entry points of its program (wraprun).
#include "geom.hpp"
#include "FittingOptionsBuidler.h"
#include "InputOptionsBuilder.h"
#include "OutputOptionsBuilder.h"
#include "Autotrace.h"
#include <climits>
#include <csignal>
#include <memory>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

// autotraceMain.cpp, compiled with another name for main
struct Result { bool success; std::string error; };
struct ResultULongLong { bool success; std::string error; unsigned long value; };
Result autotraceRun(const uintptr_t, const size_t, const std::string &, const std::string &, const std::string &);
ResultULongLong outputFileSize();
Result getOutputFile(const uintptr_t, const size_t);

namespace {
using json11::Json;

// ---- the values of an options object, as the check knows them ----
struct FMember { const char *n; float fitting_opts_type::*p; float def; FittingOptionsBuilder &(FittingOptionsBuilder::*set)(float); };
struct UMember { const char *n; unsigned fitting_opts_type::*p; unsigned def; FittingOptionsBuilder &(FittingOptionsBuilder::*set)(unsigned); };
struct BMember { const char *n; bool fitting_opts_type::*p; bool def; FittingOptionsBuilder &(FittingOptionsBuilder::*set)(bool); };
typedef FittingOptionsBuilder FB;
typedef fitting_opts_type FO;
const FMember FM[] = {
  {"corner_always_threshold", &FO::corner_always_threshold, 60, &FB::setCornerAlwaysThreshold}, {"corner_threshold", &FO::corner_threshold, 100, &FB::setCornerThreshold},
  {"error_threshold", &FO::error_threshold, 2, &FB::setErrorThreshold}, {"line_reversion_threshold", &FO::line_reversion_threshold, .01f, &FB::setLineReversionThreshold},
  {"line_threshold", &FO::line_threshold, 1, &FB::setLineThreshold}, {"despeckle_tightness", &FO::despeckle_tightness, 2, &FB::setDespeckleTightness},
  {"noise_removal", &FO::noise_removal, .99f, &FB::setNoiseRemoval}, {"width_weight_factor", &FO::width_weight_factor, 6, &FB::setWidthWeightFactor}};
const UMember UM[] = {
  {"charcode", &FO::charcode, 0, &FB::setCharCode}, {"color_count", &FO::color_count, 0, &FB::setColorCount}, {"corner_surround", &FO::corner_surround, 4, &FB::setCornerSurround},
  {"filter_iterations", &FO::filter_iterations, 4, &FB::setFilterIterations}, {"tangent_surround", &FO::tangent_surround, 3, &FB::setTangentSurround}, {"despeckle_level", &FO::despeckle_level, 0, &FB::setDespeckleLevel}};
const BMember BM[] = {
  {"remove_adjacent_corners", &FO::remove_adjacent_corners, false, &FB::setRemoveAdjacentCorners}, {"centerline", &FO::centerline, false, &FB::setCenterline},
  {"preserve_width", &FO::preserve_width, false, &FB::setPreserveWidth}, {"remove_knees", &FO::remove_knees, false, nullptr}};
const int NF = sizeof FM / sizeof *FM, NU = sizeof UM / sizeof *UM, NB = sizeof BM / sizeof *BM;

struct Vals {           // of fitting options; input options have the colour and u[0] only
  float f[NF]; unsigned u[NU]; bool b[NB]; RGB bg{0, 0, 0};
  Vals() {
    for (int i = 0; i < NF; i++) f[i] = FM[i].def;
    for (int i = 0; i < NU; i++) u[i] = UM[i].def;
    for (int i = 0; i < NB; i++) b[i] = BM[i].def;
  }
};
bool differs(const FO &o, const Vals &v, std::string &why) {
  char t[200] = "";
  for (int i = 0; i < NF; i++) if (!(o.*FM[i].p == v.f[i])) snprintf(t, sizeof t, "%s is %.9g, not %.9g", FM[i].n, o.*FM[i].p, v.f[i]);
  for (int i = 0; i < NU; i++) if (o.*UM[i].p != v.u[i]) snprintf(t, sizeof t, "%s is %u, not %u", UM[i].n, o.*UM[i].p, v.u[i]);
  for (int i = 0; i < NB; i++) if ((o.*BM[i].p) != v.b[i]) snprintf(t, sizeof t, "%s is %d, not %d", BM[i].n, (int)(o.*BM[i].p), (int)v.b[i]);
  if (!o.background_color) snprintf(t, sizeof t, "there is no background colour");
  else if (rgb(*o.background_color) != v.bg) snprintf(t, sizeof t, "background_color is %06x, not %06x", rgb(*o.background_color).code(), v.bg.code());
  why = t;
  return t[0];
}
bool differs(const at_input_opts_type &o, const Vals &v, std::string &why) {
  char t[200] = "";
  if (o.charcode != v.u[0]) snprintf(t, sizeof t, "charcode is %u, not %u", o.charcode, v.u[0]);
  if (!o.background_color) snprintf(t, sizeof t, "there is no background colour");
  else if (rgb(*o.background_color) != v.bg) snprintf(t, sizeof t, "background_color is %06x, not %06x", rgb(*o.background_color).code(), v.bg.code());
  why = t;
  return t[0];
}
float any_float(Rng &r) {
  switch (r.u(6)) {
  case 0: return (float)r.range(-3, 200);
  case 1: return (float)r.f();
  case 2: { uint32_t w; float x; do { w = (uint32_t)r.next(); memcpy(&x, &w, 4); } while (!std::isfinite(x)); return x; }
  case 3: return 0;
  default: return (float)r.frange(0, 300);
  }
}
unsigned any_unsigned(Rng &r) { return r.p(0.1) ? (unsigned)r.next() : r.p(0.1) ? (r.p(0.5) ? UINT_MAX : (unsigned)INT_MAX) : r.u(300); }
RGB any_color(Rng &r) { return r.p(0.4) ? RGB{(unsigned char)(r.p(0.5) * 255), (unsigned char)(r.p(0.5) * 255), (unsigned char)(r.p(0.5) * 255)} : r.p(0.3) ? RGB{(unsigned char)(254 + r.u(2)), (unsigned char)r.u(2), 255} : RGB{(unsigned char)r.u(256), (unsigned char)r.u(256), (unsigned char)r.u(256)}; }
at_color at(RGB c) { at_color a; a.r = c.r; a.g = c.g; a.b = c.b; return a; }
void vary(Rng &r, Vals &v, double p = 0.6) {
  for (auto &x : v.f) if (r.p(p)) x = any_float(r);
  for (auto &x : v.u) if (r.p(p)) x = any_unsigned(r);
  for (auto &x : v.b) if (r.p(p)) x = r.p(0.5);
  if (r.p(p)) v.bg = any_color(r);
}
void put(FO &o, const Vals &v) {
  for (int i = 0; i < NF; i++) o.*FM[i].p = v.f[i];
  for (int i = 0; i < NU; i++) o.*UM[i].p = v.u[i];
  for (int i = 0; i < NB; i++) o.*BM[i].p = v.b[i];
  *o.background_color = at(v.bg);
}
FittingOptions built(Rng &r, const Vals &v, bool knees = true) {
  FittingOptionsBuilder b = FittingOptionsBuilder::builder();
  int order[NF + NU + NB + 1], n = NF + NU + NB + 1;
  for (int i = 0; i < n; i++) order[i] = i;
  for (int i = n; i > 1; i--) std::swap(order[i - 1], order[r.u((uint32_t)i)]);
  for (int k : order) {
    if (k < NF) (b.*FM[k].set)(v.f[k]);
    else if ((k -= NF) < NU) (b.*UM[k].set)(v.u[k]);
    else if ((k -= NU) < NB) { if (BM[k].set) (b.*BM[k].set)(v.b[k]); }
    else b.setBackgroudColor(at(v.bg));
  }
  FittingOptions o = b.build();
  if (knees) o.remove_knees = v.b[3];
  return o;
}

// ---- JSON text ----
std::string number_text(Rng &r, double x, bool whole) {
  char t[80];
  if (whole && fabs(x) < 1e9 && r.p(0.2)) snprintf(t, sizeof t, r.p(0.5) ? "%.1f" : "%.11e", x);
  else snprintf(t, sizeof t, "%.17g", x);
  return t;
}
std::string junk(Rng &r, int not_type) {          // 0 number, 1 bool, 2 object
  static const char *const J[] = {"null", "\"12\"", "[]", "[1,2]", "\"\"", "\"true\"", "[{}]"};
  int k = (int)r.u(10);
  if (k == 7) return not_type == 1 ? "1" : "true";
  if (k == 8) return not_type == 0 ? "{\"a\":1}" : "0";
  if (k == 9) return not_type == 2 ? "3.5" : "{}";
  return J[k];
}
// a colour as JSON; ok tells whether it is one that must be taken
std::string color_text(Rng &r, RGB c, bool &ok) {
  int kind = (int)r.u(10);
  std::string m[3];
  int v[3] = {c.r, c.g, c.b};
  static const char *const N[] = {"red", "green", "blue"};
  ok = kind < 7;
  int bad = (int)r.u(3);
  for (int i = 0; i < 3; i++) m[i] = std::string("\"") + N[i] + "\":" + number_text(r, v[i], true);
  if (kind == 7) m[bad] = std::string("\"") + N[bad] + "\":" + junk(r, 0);
  if (kind == 8) m[bad] = "\"other\": 3";
  if (kind == 9) {
    static const char *const OUT[] = {"256", "-1", "300", "1e10", "-1e300", "65536", "511", "4294967296"};
    m[bad] = std::string("\"") + N[bad] + "\":" + OUT[r.u(8)];
  }
  for (int i = 3; i > 1; i--) std::swap(m[i - 1], m[r.u((uint32_t)i)]);
  return "{" + m[0] + ", " + m[1] + (r.p(0.2) ? ",\n\"alpha\": 1, " : ",") + m[2] + "}";
}
// An object with some of the members; v receives what it says
std::string object_text(Rng &r, Vals &v, int what, int *dpi, bool wild = true) {         // what: 0 fitting, 1 input, 2 output
  std::vector<std::string> m;
  double p = r.frange(0, 1), bad = wild && r.p(0.6) ? 0.3 : 0;
  auto add = [&](const char *n, const std::string &t) { m.push_back(std::string("\"") + n + "\":" + (r.p(0.3) ? " " : "") + t); };
  auto whole = [&](const char *n, unsigned &to) {
    if (!r.p(p)) return;
    if (r.p(bad)) { static const char *const BIG[] = {"1e300", "-1e300", "99999999999", "-1e10"}; add(n, r.p(0.3) ? BIG[r.u(4)] : junk(r, 0)); return; }
    unsigned x = wild && r.p(0.05) ? (unsigned)INT_MAX : wild ? r.u(1000) : 1 + r.u(9);
    add(n, number_text(r, x, true));
    to = x;
  };
  if (what == 0) {
    for (int i = 0; i < NF; i++) {
      if (!r.p(p)) continue;
      if (r.p(bad)) { add(FM[i].n, junk(r, 0)); continue; }
      v.f[i] = wild ? any_float(r) : (float)r.frange(0.1, 100);
      add(FM[i].n, number_text(r, v.f[i], false));
    }
    for (int i = 0; i < NU; i++) if (wild || (i != 1 && i != 5)) whole(UM[i].n, v.u[i]);
    if (!wild && r.p(0.2)) { v.u[5] = r.u(5); add("despeckle_level", std::to_string(v.u[5])); }
    for (int i = 0; i < NB; i++) {
      if (!r.p(p)) continue;
      if (r.p(bad)) { add(BM[i].n, junk(r, 1)); continue; }
      v.b[i] = r.p(0.5);
      add(BM[i].n, v.b[i] ? "true" : "false");
    }
  }
  if (what == 1) whole("charcode", v.u[0]);
  if (what == 2) { unsigned d = (unsigned)*dpi; whole("dpi", d); *dpi = (int)d; }
  if (what < 2 && r.p(p)) {
    if (r.p(bad)) add("background_color", junk(r, 2));
    else {
      RGB c = any_color(r);
      bool ok;
      std::string t;
      do t = color_text(r, c, ok); while (!ok && !wild);
      add("background_color", t);
      if (ok) v.bg = c;
    }
  }
  while (r.p(0.3)) add(r.p(0.5) ? "unknown" : "dpi_x", junk(r, 3));
  for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[r.u((uint32_t)i)]);
  std::string s = "{";
  for (size_t i = 0; i < m.size(); i++) s += (i ? ", " : "") + m[i];
  return s + "}";
}
void warm() {                // statics of the JSON library and the formats
  static bool done = false;
  if (done) return;
  done = true;
  std::string e;
  Json::parse("{\"a\":[1,true,null,\"x\",1.5]}", e).dump();
  FittingOptions f; f.toJson().dump();
  autotrace_init();
  for (const char *n : {"round_trips", "exceptions", "objects_read", "operations"}) count(n, 0);
}
struct Leak {
  const char *what;
  int fds = open_fds();
  explicit Leak(const char *w) : what(w) { mem_forget(); mem_track(true); }
  ~Leak() {
    mem_track(false);
    int now = open_fds();          // before the symbolizer gets any
    if (size_t n = mem_live()) {
      char b[300];
      mem_describe(b, sizeof b);
      report("leak", "%s leaves %zu blocks allocated, one by %s", what, n, b);
    }
    mem_forget();
    if (now != fds) report("leak-descriptor", "%s leaves %d more files open", what, now - fds);
  }
};
}

MODE(wrapjson) {
  warm();
  Rng &r = c.rng;
  Leak leak("the conversion of options");
  Vals v, w;
  std::string why, err;
  int dpi = 72;
  c.nontrivial = true;
  if (r.p(0.45)) {         // there and back
    vary(r, v, r.frange(0, 1));
    bool text = r.p(0.5);
    auto carry = [&](const Json &j) { if (!text) return j; std::string d = j.dump(); use_hash(hash_bytes(d.data(), d.size())); Json k = Json::parse(d, err); if (!err.empty()) report("unparsable", "toJson gives %s, which is no JSON: %s", d.c_str(), err.c_str()); return k; };
    FittingOptions o = built(r, v);
    if (differs(o, v, why)) report("builder", "FittingOptionsBuilder: %s", why.c_str());
    FittingOptions o2{carry(o.toJson())};
    if (differs(o2, v, why)) report("round-trip", "fitting options, %s: %s after toJson and back", text ? "as text" : "as values", why.c_str());
    InputOptionsBuilder ib = InputOptionsBuilder::builder();
    if (r.p(0.3)) ib.setBackgroudColor(at(any_color(r))).setCharCode(any_unsigned(r));
    InputOptions i = ib.setBackgroudColor(at(v.bg)).setCharCode(v.u[0]).build();
    if (differs(i, v, why)) report("builder", "InputOptionsBuilder: %s", why.c_str());
    InputOptions i2{carry(i.toJson())};
    if (differs(i2, v, why)) report("round-trip", "input options: %s after toJson and back", why.c_str());
    dpi = (int)(any_unsigned(r) & INT_MAX);
    OutputOptions u = OutputOptionsBuilder::builder().setDpi((unsigned)dpi).build(), u2{carry(u.toJson())};
    if (u.dpi != dpi || u2.dpi != dpi) report("round-trip", "output options: dpi %d became %d and %d after toJson and back", dpi, u.dpi, u2.dpi);
    use_hash(hash_bytes(&dpi, sizeof dpi)); use_hash(v.bg.code()); use_hash(v.u[0]);
    count("round_trips");
    sample("toJson and back: %.150s", o.toJson().dump().c_str());
    return;
  }
  if (r.p(0.1)) {          // something else than an object: any result that is no crash
    std::string t = junk(r, 2);
    for (int k = 0; k < 3; k++)
      try {
        Json j = Json::parse(t, err);
        if (k == 0) FittingOptions x{j}; else if (k == 1) InputOptions x{j}; else OutputOptions x{j};
      } catch (const std::exception &) { count("exceptions"); }
    use_hash(hash_bytes(t.data(), t.size()));
    return;
  }
  int what = r.p(0.6) ? 0 : 1 + (int)r.u(2);
  std::string t = object_text(r, v, what, &dpi);
  Json j = Json::parse(t, err);
  if (!err.empty()) harness_error("bad JSON made: %s: %s", t.c_str(), err.c_str());
  static const char *const N[] = {"fitting", "input", "output"};
  bool bad = false;
  if (what == 0) { FittingOptions o{j}; bad = differs(o, v, why); }
  else if (what == 1) { InputOptions o{j}; bad = differs(o, v, why); }
  else { OutputOptions o{j}; if (o.dpi != dpi) { bad = true; why = "dpi is " + std::to_string(o.dpi) + ", not " + std::to_string(dpi); } }
  if (bad) report("json", "%s options from %.400s: %s", N[what], t.c_str(), why.c_str());
  use_hash(hash_bytes(t.data(), t.size()));
  count("objects_read");
  sample("%s options from %.150s", N[what], t.c_str());
}

// A pool of options objects and what each must hold, under random operations
MODE(wrapcopy) {
  warm();
  Rng &r = c.rng;
  Leak leak("a sequence of copies");
  struct F { std::unique_ptr<FittingOptions> o; Vals v; };
  struct I { std::unique_ptr<InputOptions> o; Vals v; };
  struct U { std::unique_ptr<OutputOptions> o; int dpi; };
  struct FBd { std::unique_ptr<FittingOptionsBuilder> o; Vals v; };
  struct IBd { std::unique_ptr<InputOptionsBuilder> o; Vals v; };
  struct O { std::unique_ptr<Options> o; Vals f, i; int dpi; };
  std::vector<F> fs; std::vector<I> is; std::vector<U> us; std::vector<FBd> fb; std::vector<IBd> ib; std::vector<O> os;
  fs.push_back({std::make_unique<FittingOptions>(), Vals()});
  is.push_back({std::make_unique<InputOptions>(), Vals()});
  us.push_back({std::make_unique<OutputOptions>(), 72});
  fb.push_back({std::make_unique<FittingOptionsBuilder>(), Vals()});
  ib.push_back({std::make_unique<InputOptionsBuilder>(), Vals()});
  std::string log, why;
  int n = 3 + (int)r.u(c.thorough ? 40 : 20);
  auto idx = [&](auto &v) { return (size_t)r.u((uint32_t)v.size()); };
  for (int k = 0; k < n && !reported_any(); k++) {
    int op = (int)r.u(20);
    char t[100];
    size_t a = 0, b = 0;
    switch (op) {
    case 0: a = idx(fs); { auto p = std::make_unique<FittingOptions>(*fs[a].o); Vals v = fs[a].v; fs.push_back({std::move(p), v}); } break;
    case 1: a = idx(is); { auto p = std::make_unique<InputOptions>(*is[a].o); Vals v = is[a].v; is.push_back({std::move(p), v}); } break;
    case 2: a = idx(us); { auto p = std::make_unique<OutputOptions>(*us[a].o); int d = us[a].dpi; us.push_back({std::move(p), d}); } break;
    case 3: case 4: a = idx(fs); b = idx(fs); *fs[a].o = *fs[b].o; fs[a].v = fs[b].v; break;
    case 5: case 6: a = idx(is); b = idx(is); *is[a].o = *is[b].o; is[a].v = is[b].v; break;
    case 7: a = idx(fs); if (fs.size() > 1) fs.erase(fs.begin() + (long)a); break;
    case 8: a = idx(is); if (is.size() > 1) is.erase(is.begin() + (long)a); break;
    case 9: a = idx(fs); vary(r, fs[a].v); put(*fs[a].o, fs[a].v); break;
    case 10: a = idx(is); is[a].v.bg = any_color(r); is[a].v.u[0] = any_unsigned(r); *is[a].o->background_color = at(is[a].v.bg); is[a].o->charcode = is[a].v.u[0]; break;
    case 11: a = idx(fb); {
      int j = (int)r.u(NF + NU + NB);
      if (j < NF) (fb[a].o.get()->*FM[j].set)(fb[a].v.f[j] = any_float(r));
      else if ((j -= NF) < NU) (fb[a].o.get()->*UM[j].set)(fb[a].v.u[j] = any_unsigned(r));
      else if ((j -= NU) < 3) (fb[a].o.get()->*BM[j].set)(fb[a].v.b[j] = r.p(0.5));
      else { fb[a].v.bg = any_color(r); fb[a].o->setBackgroudColor(at(fb[a].v.bg)); }
      break;
    }
    case 12: a = idx(ib); if (r.p(0.6)) { ib[a].v.bg = any_color(r); ib[a].o->setBackgroudColor(at(ib[a].v.bg)); } else ib[a].o->setCharCode(ib[a].v.u[0] = any_unsigned(r)); break;
    case 13: a = idx(fb); fs.push_back({std::make_unique<FittingOptions>(fb[a].o->build()), fb[a].v}); break;
    case 14: a = idx(ib); is.push_back({std::make_unique<InputOptions>(ib[a].o->build()), ib[a].v}); break;
    case 15: a = idx(fb); b = idx(fb); if (r.p(0.5)) { auto p = std::make_unique<FittingOptionsBuilder>(*fb[a].o); Vals v = fb[a].v; fb.push_back({std::move(p), v}); } else { *fb[a].o = *fb[b].o; fb[a].v = fb[b].v; } break;
    case 16: a = idx(ib); b = idx(ib); if (r.p(0.5)) { auto p = std::make_unique<InputOptionsBuilder>(*ib[a].o); Vals v = ib[a].v; ib.push_back({std::move(p), v}); } else { *ib[a].o = *ib[b].o; ib[a].v = ib[b].v; } break;
    case 17: a = idx(fs); b = idx(is); { size_t d = idx(us); os.push_back({std::make_unique<Options>(*fs[a].o, *is[b].o, *us[d].o), fs[a].v, is[b].v, us[d].dpi}); } break;
    case 18: if (os.size()) { a = idx(os); if (r.p(0.5)) { auto p = std::make_unique<Options>(*os[a].o); Vals f = os[a].f, i = os[a].i; int d = os[a].dpi; os.push_back({std::move(p), f, i, d}); } else os.erase(os.begin() + (long)a); } break;
    case 19: a = idx(us); us[a].dpi = r.range(1, 1000); us[a].o->dpi = us[a].dpi; break;
    }
    snprintf(t, sizeof t, " %d(%zu,%zu)", op, a, b);
    log += t;
    use_hash((uint64_t)op << 20 | a << 10 | b);
    count("operations");
    for (auto &x : fs) if (differs(*x.o, x.v, why)) report("changed", "fitting options after%s: %s", log.c_str(), why.c_str());
    for (auto &x : is) if (differs(*x.o, x.v, why)) report("changed", "input options after%s: %s", log.c_str(), why.c_str());
    for (auto &x : us) if (x.o->dpi != x.dpi) report("changed", "output options after%s: dpi is %d, not %d", log.c_str(), x.o->dpi, x.dpi);
    for (auto &x : os) if (differs(x.o->fittingOptions, x.f, why) || differs(x.o->inputOptions, x.i, why) || x.o->outputOptions.dpi != x.dpi) report("changed", "an Options object after%s: %s", log.c_str(), why.c_str());
    for (auto &x : fb) { FittingOptions y = x.o->build(); if (differs(y, x.v, why)) report("changed", "a builder of fitting options after%s: %s", log.c_str(), why.c_str()); }
    for (auto &x : ib) { InputOptions y = x.o->build(); if (differs(y, x.v, why)) report("changed", "a builder of input options after%s: %s", log.c_str(), why.c_str()); }
  }
  c.nontrivial = true;
  sample("operations%.150s", log.c_str());
}

namespace {
// The C interface for the same job. "" when it made a file, otherwise what failed
std::string c_interface(const char *in, const std::string &name, const FO &f, const at_input_opts_type &i, const at_output_opts_type &o, const char *out, bool &skip) {
  at_bitmap_reader *rd = at_input_get_handler((char *)in);
  at_spline_writer *w = at_output_get_handler((char *)name.c_str());
  if (!rd) return "no reader";
  if (!w) return "no writer";
  Msgs m;
  at_bitmap *b = at_bitmap_read(rd, (char *)in, (at_input_opts_type *)&i, msg_cb, &m);
  if (m.fatal) { at_bitmap_free(b); return std::string("read: ") + m.first; }
  if (!b->bitmap) { skip = true; at_bitmap_free(b); return "no pixels"; }
  at_splines_type *s = at_splines_new_full(b, (FO *)&f, msg_cb, &m, nullptr, nullptr, nullptr, nullptr);
  at_bitmap_free(b);
  if (m.fatal || !s) { if (s) at_splines_free(s); return std::string("trace: ") + m.first; }
  FILE *fp = fopen(out, "wb");
  if (!fp) harness_error("cannot create %s", out);
  at_splines_write(w, fp, (char *)name.c_str(), (at_output_opts_type *)&o, s, msg_cb, &m);
  fclose(fp);
  at_splines_free(s);
  return m.fatal ? std::string("write: ") + m.first : "";
}
Bytes input_file(Rng &r, const char *&suffix, int &charcode, bool png = false) {
  if (!png && r.p(0.5)) {
    GenOpt g;
    g.maxdim = 30;
    Img im = r.p(0.6) ? gen_strokes(r, g, true, RGB{255, 255, 255}) : gen_image(r, g);
    char h[64];
    int n = snprintf(h, sizeof h, "P%c\n%d %d\n255\n", im.np == 1 ? '5' : '6', im.w, im.h);
    Bytes d(h, h + n);
    d.insert(d.end(), im.px.begin(), im.px.end());
    suffix = im.np == 1 ? "pgm" : "ppm";
    return d;
  }
  int k;
  Encoded e;
  do { k = (int)r.u((uint32_t)NENC); e = gen_encoded(r, k, 24); } while ((png && strcmp(e.suffix, "png")) || e.exp.w > 120 || e.exp.h > 120);
  if (r.p(0.35)) mutate(r, e.data, e.body);
  suffix = e.suffix;
  charcode = e.charcode;
  return e.data;
}
bool large(const Bytes &d, const char *suffix) {       // damaged headers that ask for a lot
  std::string p = scratch_path(("probe." + std::string(suffix)).c_str());
  write_file(p.c_str(), d.data(), d.size());
  Msgs m;
  at_bitmap *b = at_bitmap_read(reader(suffix), &p[0], nullptr, msg_cb, &m);
  bool big = (size_t)b->width * b->height > 6000;
  at_bitmap_free(b);
  unlink(p.c_str());
  return big;
}
void mild(Rng &r, Vals &v) {
  if (r.p(0.3)) v.u[1] = r.p(0.3) ? 1 + r.u(20) : 0;
  if (r.p(0.4)) v.u[2] = 1 + r.u(8);
  if (r.p(0.4)) v.u[3] = r.u(8);
  if (r.p(0.4)) v.u[4] = 1 + r.u(6);
  if (r.p(0.15)) v.u[5] = r.u(8);
  for (auto &x : v.f) if (r.p(0.3)) x = (float)(x * r.frange(0.3, 2));
  for (auto &x : v.b) if (r.p(0.3)) x = r.p(0.5);
  if (r.p(0.5)) v.bg = r.p(0.6) ? RGB{255, 255, 255} : any_color(r);
}
}

MODE(wrapout) {
  warm();
  Rng &r = c.rng;
  const char *suffix = "";
  int charcode = 0, dpi = r.p(0.5) ? 72 : r.range(1, 600);
  Bytes d = input_file(r, suffix, charcode);
  if (large(d, suffix)) return;
  Vals v, vi;
  mild(r, v);
  vi.bg = r.p(0.5) ? v.bg : any_color(r);
  v.u[0] = vi.u[0] = (unsigned)charcode;
  std::string in = scratch_path("in."), out = scratch_path(r.p(0.3) ? "o.dir" : "out"), fault, exp = scratch_path("expected");
  in += suffix;
  bool in_dir = out.substr(out.size() - 5) == "o.dir";
  if (in_dir) { mkdir(out.c_str(), 0700); out += "/res"; }
  out += std::string(".") + WRITERS[r.u((uint32_t)NWRITERS)];
  unlink(in.c_str());
  rmdir(in.c_str());
  unlink(out.c_str());
  bool made = true;
  switch (r.u(16)) {
  case 0: made = false; fault = "input is missing"; break;
  case 1: d.clear(); fault = "input is empty"; break;
  case 2: in += ".xyz"; fault = "input has no known suffix"; break;
  case 3: out += "x"; fault = "output has no known suffix"; break;
  case 4: out = scratch_path("not-there/out.svg"); fault = "output directory is missing"; break;
  case 5: fault = "output has no room"; break;
  }
  if (made) write_file(in.c_str(), d.data(), d.size());
  FittingOptions fo = built(r, v);
  InputOptions io = InputOptionsBuilder::builder().setBackgroudColor(at(vi.bg)).setCharCode(vi.u[0]).build();
  OutputOptions oo = OutputOptionsBuilder::builder().setDpi((unsigned)dpi).build();
  bool skip = false;
  std::string want = c_interface(in.c_str(), out, fo, io, oo, exp.c_str(), skip);
  Bytes e, g;
  if (want.empty()) read_file(exp.c_str(), e);
  if (fault == "output directory is missing" && want.empty()) want = fault;
  struct rlimit old, lim;
  getrlimit(RLIMIT_FSIZE, &old);
  bool room = fault == "output has no room";
  if (room) {
    if (want.empty() && !e.empty()) want = fault;
    lim = old;
    lim.rlim_cur = e.empty() ? 0 : r.p(0.3) ? e.size() - 1 : r.u((uint32_t)e.size());
    signal(SIGXFSZ, SIG_IGN);
  }
  bool ok = false;
  char err[300] = "";
  {
    Leak leak("produceOutput");
    // the options need not outlive the object made from them
    std::unique_ptr<Options> o;
    if (r.p(0.5)) o = std::make_unique<Options>(FittingOptions(fo), InputOptions(io), OutputOptions(oo));
    else o = std::make_unique<Options>(fo, io, oo);
    Autotrace a{in, out, *o};
    if (r.p(0.5)) o.reset();
    for (int k = r.p(0.2) ? 2 : 1; k; k--) {
      if (room) setrlimit(RLIMIT_FSIZE, &lim);
      auto res = a.produceOutput();
      if (room) setrlimit(RLIMIT_FSIZE, &old);
      ok = res.has_value();
      snprintf(err, sizeof err, "%s", ok ? "" : res.error().c_str());
    }
  }
  count("conversions");
  if (!skip) {
    if (want.empty()) {
      count("made");
      if (!ok) report("refused", "produceOutput(%s to %s) fails with \"%s\", the C interface succeeds", in.c_str(), out.c_str(), err);
      else if (!read_file(out.c_str(), g) || g != e) report("differs", "produceOutput(%s to %s) writes %zu bytes, not the %zu of the C interface", in.c_str(), out.c_str(), g.size(), e.size());
    } else {
      count(fault.empty() ? "damaged" : "faults");
      if (ok) report("success-after-failure", "produceOutput(%s to %s) succeeds in spite of: %s", in.c_str(), out.c_str(), want.c_str());
      else if (!*err) report("no-reason", "produceOutput(%s to %s) gives no reason for its failure: %s", in.c_str(), out.c_str(), want.c_str());
    }
    c.nontrivial = true;
    use_hash(hash_bytes(d.data(), d.size())); use_hash(hash_opts(&fo)); use_hash(hash_bytes(out.data(), out.size()));
    sample("%s -> %s: %s", suffix, out.substr(out.rfind('/') + 1).c_str(), want.empty() ? "the same bytes" : err);
  }
  unlink(in.c_str()); unlink(out.c_str()); unlink(exp.c_str());
  if (in_dir) rmdir(scratch_path("o.dir"));
}

MODE(wraprun) {
  warm();
  Rng &r = c.rng;
  if (chdir(c.scratch)) harness_error("chdir %s", c.scratch);
  const char *suffix = "";
  int charcode = 0, dpi = 72;
  Bytes d = input_file(r, suffix, charcode, true);
  if (large(d, suffix)) return;
  Vals v, vi, vo;
  std::string js[3] = {object_text(r, v, 0, nullptr, false), object_text(r, vi, 1, nullptr, false), object_text(r, vo, 2, &dpi, false)};
  std::string fault;
  bool same = r.p(0.3);
  if (same) { static const char *const N[] = {"{}", "{ }", " {\n}"}; int k = (int)r.u(3); js[k] = N[r.u(3)]; if (k == 0) v = Vals(); if (k == 1) vi = Vals(); if (k == 2) dpi = 72; }
  if (r.p(0.35)) {
    int k = (int)r.u(3);
    if (r.p(0.5)) { js[k] = junk(r, 2); if (js[k][0] == '{') return; fault = "options that are no object"; }
    else { fault = "options that are no JSON"; if (r.p(0.5)) js[k] = js[k].substr(0, r.u((uint32_t)js[k].size())); else js[k] += r.p(0.5) ? "}" : "x"; }
  }
  bool skip = false;
  FittingOptions fo; put(fo, v);
  InputOptions io; *io.background_color = at(vi.bg); io.charcode = vi.u[0];
  OutputOptions oo; oo.dpi = dpi;
  write_file("c.png", d.data(), d.size());
  unlink("test.svg"); unlink("Test.png");
  // the name the program gives its output
  std::string want = c_interface("c.png", "test.svg", fo, io, oo, "expected", skip);
  Bytes e;
  if (want.empty()) read_file("expected", e);
  if (!fault.empty()) want = fault;
  struct { bool success; } res;
  try {
    Leak leak("autotraceRun");
    res.success = autotraceRun((uintptr_t)d.data(), d.size(), js[0], js[1], js[2]).success;
  } catch (const std::exception &x) {
    report("exception", "autotraceRun(%s, %s, %s) ends with an exception: %s", js[0].c_str(), js[1].c_str(), js[2].c_str(), x.what());
    return;
  }
  count("runs");
  if (!skip) {
    c.nontrivial = true;
    for (auto &s : js) use_hash(hash_bytes(s.data(), s.size()));
    use_hash(hash_bytes(d.data(), d.size()));
    if (want.empty() != res.success) report(res.success ? "success-after-failure" : "refused", "autotraceRun(%s, %s, %s) %s, the C interface: %s", js[0].c_str(), js[1].c_str(), js[2].c_str(), res.success ? "succeeds" : "fails", want.empty() ? "succeeds" : want.c_str());
    else if (res.success) {
      count("made");
      size_t n = outputFileSize().value;
      Bytes g(n);
      if (n != e.size()) report("size", "outputFileSize gives %zu, the file has %zu bytes", n, e.size());
      else {
        if (n && getOutputFile((uintptr_t)g.data(), n - 1).success) report("too-small", "getOutputFile accepts a buffer that is too small");
        bool ok = getOutputFile((uintptr_t)g.data(), n).success;
        if (!ok || g != e) report("differs", "getOutputFile %s the bytes of the C interface", ok ? "does not give" : "refuses to give");
      }
    } else count("failures");
    sample("%.60s %.30s %.20s: %s", js[0].c_str(), js[1].c_str(), js[2].c_str(), want.empty() ? "the same bytes" : want.c_str());
  }
  unlink("test.svg"); unlink("Test.png"); unlink("c.png"); unlink("expected");
}

// Modes that read written files back: curves (C17), polylines (C18), records (C19).
// Every reader below is written from the format, not from the writer.
#include "geom.hpp"
#include "palettes.hpp"
#include <locale.h>
#include <functional>
#include <map>
#include <set>
#include <string>
using std::string;
using std::vector;

struct Seg { int deg; P2 s, c1, c2, e; };
struct Item {
  bool has_col = false;
  RGB col{0, 0, 0};
  int index = -1;              // colour number of formats with a fixed palette
  int near = 0;                // tolerance of the colour
  int stroke = -1, closed = -1;
  bool started = false;
  P2 start{0, 0}, cur{0, 0};
  vector<Seg> segs;
  vector<P2> pts;              // formats without curves
  vector<RGB> ptcol;
  string tag;
  int depth = 0;
  vector<double> widths;
};
struct Doc {
  vector<Item> items;
  string bad;                               // the file could not be understood
  vector<std::pair<string, string>> err;    // untrue counts, unbalanced groups, ...
  double w = -1, h = -1;
  bool ok() const { return bad.empty(); }
};
static string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static string fmt(const char *f, ...) {
  char b[400];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static void err(Doc &d, const char *key, const string &t) { if (d.err.size() < 5) d.err.push_back({key, t}); }
static void bad(Doc &d, const string &t) { if (d.bad.empty()) d.bad = t; }

// ---- text ----
static bool number(const string &t, double &v) {
  if (t.empty() || !(isdigit((unsigned char)t[0]) || t[0] == '-' || t[0] == '.' || t[0] == '+')) return false;
  for (char ch : t) if (!strchr("0123456789+-.eE", ch)) return false;
  char *e;
  v = strtod(t.c_str(), &e);
  return !*e;
}
static vector<string> lines(const Bytes &b) {
  vector<string> l;
  string cur;
  for (unsigned char ch : b) { if (ch == '\n') { l.push_back(cur); cur.clear(); } else cur += (char)ch; }
  if (!cur.empty()) l.push_back(cur);
  return l;
}
static vector<string> words(const string &s) {
  vector<string> w;
  string cur;
  for (char ch : s) {
    if (ch == ' ' || ch == '\t' || ch == '\r') { if (!cur.empty()) w.push_back(cur), cur.clear(); }
    else cur += ch;
  }
  if (!cur.empty()) w.push_back(cur);
  return w;
}
static string trim(const string &s) {
  size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}
static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool nums(const string &s, vector<double> &v, const char *seps) {   // numbers separated by any of seps
  string t = s;
  for (char &ch : t) if (strchr(seps, ch)) ch = ' ';
  v.clear();
  for (auto &w : words(t)) { double x; if (!number(w, x)) return false; v.push_back(x); }
  return true;
}

// ---- a drawing machine for path operators ----
struct Pen {
  Doc &d;
  vector<double> st;
  RGB fill{0, 0, 0}, stroke{0, 0, 0};
  vector<Item> pend;
  explicit Pen(Doc &d_) : d(d_) {}
  bool need(size_t n, const string &op) {
    if (st.size() == n) return true;
    bad(d, fmt("operator %s with %zu operands", op.c_str(), st.size()));
    return false;
  }
  void move(P2 p) { Item it; it.started = true; it.start = it.cur = p; pend.push_back(it); }
  void line(P2 p) {
    if (pend.empty()) { bad(d, "line without a current point"); return; }
    Item &i = pend.back();
    i.segs.push_back(Seg{AT_LINEARTYPE, i.cur, i.cur, p, p});
    i.cur = p;
  }
  void curve(P2 a, P2 b, P2 e) {
    if (pend.empty()) { bad(d, "curve without a current point"); return; }
    Item &i = pend.back();
    i.segs.push_back(Seg{AT_CUBICTYPE, i.cur, a, b, e});
    i.cur = e;
  }
  void close() { if (!pend.empty()) pend.back().closed = 1; }
  void paint(bool s) {
    for (Item &i : pend) { i.stroke = s; i.has_col = true; i.col = s ? stroke : fill; d.items.push_back(i); }
    pend.clear();
  }
  void drop() { if (!pend.empty()) err(d, "unpainted-path", fmt("%zu subpaths are discarded without being painted", pend.size())); pend.clear(); }
};
static bool unit(Doc &d, const vector<double> &v) {
  for (double x : v) if (x < 0 || x > 1) { bad(d, fmt("colour component %g", x)); return false; }
  return true;
}
static RGB cmyk(const vector<double> &v) {
  auto one = [&](int i) { long r = lround(255 * (1 - v[i] - v[3])); return (unsigned char)(r < 0 ? 0 : r); };
  return RGB{one(0), one(1), one(2)};
}
static RGB rgb3(const vector<double> &v) { return RGB{(unsigned char)lround(255 * v[0]), (unsigned char)lround(255 * v[1]), (unsigned char)lround(255 * v[2])}; }

// ---- SVG ----
static void svg_path(Doc &d, const string &s, Pen &pen) {
  size_t i = 0;
  char cmd = 0;
  auto ws = [&] { while (i < s.size() && strchr(" ,\t\n", s[i])) i++; };
  auto num = [&](double &v) {
    ws();
    size_t j = i;
    if (j < s.size() && (s[j] == '-' || s[j] == '+')) j++;
    while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == '.')) j++;
    if (j < s.size() && (s[j] == 'e' || s[j] == 'E')) { j++; if (j < s.size() && (s[j] == '-' || s[j] == '+')) j++; while (j < s.size() && isdigit((unsigned char)s[j])) j++; }
    bool r = number(s.substr(i, j - i), v);
    i = j;
    return r;
  };
  for (;;) {
    ws();
    if (i >= s.size()) break;
    if (isalpha((unsigned char)s[i])) { cmd = s[i++]; if (cmd == 'z' || cmd == 'Z') { pen.close(); continue; } }
    int n = cmd == 'M' || cmd == 'L' ? 2 : cmd == 'C' ? 6 : 0;
    if (!n) { bad(d, fmt("path command '%c'", cmd)); return; }
    double v[6];
    for (int k = 0; k < n; k++) if (!num(v[k])) { bad(d, fmt("path data near \"%.20s\"", s.c_str() + i)); return; }
    if (cmd == 'M') { pen.move(P2{v[0], v[1]}); }
    else if (cmd == 'L') pen.line(P2{v[0], v[1]});
    else pen.curve(P2{v[0], v[1]}, P2{v[2], v[3]}, P2{v[4], v[5]});
    if (!d.ok()) return;
  }
}
static void read_svg(const Bytes &b, Doc &d) {
  string s((const char *)b.data(), b.size());
  size_t i = 0;
  int depth = 0, roots = 0;
  if (!starts(s, "<?xml ")) err(d, "header", "no XML declaration");
  while (i < s.size()) {
    if (strchr(" \t\r\n", s[i])) { i++; continue; }
    if (s[i] != '<') { bad(d, fmt("text outside of elements: %.20s", s.c_str() + i)); return; }
    size_t j = i + 1;
    bool q = false;
    while (j < s.size() && (q || s[j] != '>')) { if (s[j] == '"') q = !q; if (s[j] == '<') { bad(d, "< inside an element"); return; } j++; }
    if (j >= s.size()) { bad(d, "element not closed"); return; }
    string e = s.substr(i + 1, j - i - 1);
    i = j + 1;
    if (starts(e, "?xml")) { if (e.back() != '?') bad(d, "xml declaration"); continue; }
    if (e[0] == '/') { if (e != "/svg" || depth != 1) err(d, "unbalanced", "closing " + e); depth--; continue; }
    bool empty = e.back() == '/';
    if (empty) e.pop_back();
    std::map<string, string> at;
    size_t p = e.find_first_of(" \t\n");
    string name = e.substr(0, p);
    while (p != string::npos && p < e.size()) {
      p = e.find_first_not_of(" \t\r\n", p);
      if (p == string::npos) break;
      size_t eq = e.find("=\"", p);
      size_t en = eq == string::npos ? eq : e.find('"', eq + 2);
      if (en == string::npos) { bad(d, "attribute of " + name); return; }
      at[e.substr(p, eq - p)] = e.substr(eq + 2, en - eq - 2);
      p = en + 1;
    }
    if (name == "svg") {
      if (depth || roots++) err(d, "unbalanced", "more than one svg element");
      if (!empty) depth++;
      if (!number(at["width"], d.w) || !number(at["height"], d.h)) bad(d, "svg size");
      if (at.count("xmlns") && at["xmlns"] != "http://www.w3.org/2000/svg") err(d, "header", "namespace " + at["xmlns"]);
    } else if (name == "path") {
      if (depth != 1) err(d, "unbalanced", "path outside of svg");
      if (!empty) { bad(d, "path not closed"); return; }
      Pen pen(d);
      string st = at["style"], fill, stroke;
      size_t k = 0;
      while (k < st.size()) {
        size_t e2 = st.find(';', k);
        string one = trim(st.substr(k, e2 == string::npos ? e2 : e2 - k));
        size_t co = one.find(':');
        if (co != string::npos) { if (one.substr(0, co) == "fill") fill = trim(one.substr(co + 1)); else if (one.substr(0, co) == "stroke") stroke = trim(one.substr(co + 1)); }
        if (e2 == string::npos) break;
        k = e2 + 1;
      }
      bool isstroke = fill == "none";
      string colr = isstroke ? stroke : fill;
      if (!isstroke && stroke != "none") { bad(d, "style " + st); return; }
      unsigned rr, gg, bb;
      if (colr.size() != 7 || sscanf(colr.c_str(), "#%02x%02x%02x", &rr, &gg, &bb) != 3) { bad(d, "colour " + colr); return; }
      pen.fill = pen.stroke = RGB{(unsigned char)rr, (unsigned char)gg, (unsigned char)bb};
      svg_path(d, at["d"], pen);
      if (pen.pend.empty()) bad(d, "empty path");
      pen.paint(isstroke);
    } else bad(d, "element " + name);
    if (!d.ok()) return;
  }
  if (depth || roots != 1) err(d, "unbalanced", "svg element not closed");
}

// ---- EPS, AI ----
static bool path_op(Pen &p, const string &op, const char *m, const char *l, const char *cv) {
  auto &v = p.st;
  if (op == m) { if (p.need(2, op)) p.move(P2{v[0], v[1]}); }
  else if (op == l) { if (p.need(2, op)) p.line(P2{v[0], v[1]}); }
  else if (op == cv) { if (p.need(6, op)) p.curve(P2{v[0], v[1]}, P2{v[2], v[3]}, P2{v[4], v[5]}); }
  else return false;
  v.clear();
  return true;
}
static bool bbox(const string &s, Doc &d) {
  vector<double> v;
  if (!nums(s, v, "") || v.size() != 4) return false;
  if (v[0] || v[1]) err(d, "frame", "frame does not start at 0 0: " + s);
  d.w = v[2];
  d.h = v[3];
  return true;
}
// Names a PostScript program executes must be operators or defined before they are used.
static void ps_names(const vector<string> &L, Doc &d) {
  static const std::set<string> known = {
    "def", "bind", "dup", "pop", "exch", "index", "length", "dict", "begin", "end", "forall", "ifelse", "if", "not", "ne", "eq", "neg", "translate", "div", "cvi", "cvs", "string", "readstring", "filter", "awidthshow",
    "moveto", "lineto", "curveto", "closepath", "newpath", "fill", "eofill", "stroke", "gsave", "grestore", "setcmykcolor", "setrgbcolor", "setgray", "setlinewidth", "setlinecap", "setlinejoin", "setmiterlimit", "setdash",
    "showpage", "findfont", "makefont", "scalefont", "setfont", "definefont", "currentdict", "true", "false", "ISOLatin1Encoding", "StandardEncoding", "currentfile", "show", "ashow", "widthshow", "scale", "rotate", "concat", "copy", "roll", "add", "sub", "mul", "store", "load", "exec", "for", "repeat", "loop", "clip", "eoclip", "save", "restore", "[", "]", "{", "}"};
  std::set<string> defined, definer = {"def"};
  std::map<string, vector<string>> body;
  vector<std::pair<string, string>> called;   // used in a procedure: name and definition
  for (auto &l0 : L) {
    if (l0.empty() || l0[0] == '%') continue;
    string l;
    int par = 0;
    for (char ch : l0) {
      if (ch == '(') par++;
      if (!par && ch == '%') break;
      if (!par) { if (ch == '{' || ch == '}' || ch == '[' || ch == ']') { l += ' '; l += ch; l += ' '; } else if (ch == '/') { l += " /"; } else l += ch; }
      if (ch == ')') par--;
    }
    auto w = words(l);
    if (w.empty()) continue;
    string name = w[0].size() > 1 && w[0][0] == '/' ? w[0].substr(1) : "";
    int depth = 0;
    for (size_t i = 0; i < w.size(); i++) {
      double v;
      if (w[i] == "{") depth++;
      else if (w[i] == "}") { if (--depth < 0) err(d, "unbalanced", "} without { in " + l0); }
      else if (w[i][0] == '/' || number(w[i], v) || known.count(w[i]) || defined.count(w[i])) {}
      else if (depth) called.push_back({w[i], name});
      else { err(d, "undefined-name", "the name " + w[i] + " is used and not defined"); return; }
    }
    if (depth) err(d, "unbalanced", "{ without } in " + l0);
    if (!name.empty() && definer.count(w.back())) {
      defined.insert(name);
      size_t cl = w.size();
      while (cl > 0 && w[cl - 1] != "}") cl--;
      if (w.size() > 2 && w[1] == "{" && cl > 2) {
        body[name].assign(w.begin() + 2, w.begin() + (long)cl - 1);
        bool names = false;
        for (auto &x : body[name]) if (x[0] == '/') names = true;
        if (!names && body[name].back() == "def") definer.insert(name);
      }
    }
  }
  // what the short names stand for
  std::function<string(const string &, int)> does = [&](const string &n, int level) {
    string r;
    static const std::set<string> paints = {"moveto", "lineto", "curveto", "closepath", "fill", "eofill", "stroke", "setcmykcolor", "newpath"};
    if (paints.count(n)) return n + " ";
    if (body.count(n) && level < 8) for (auto &x : body[n]) r += does(x, level + 1);
    return r;
  };
  static const struct { const char *name, *what; } MEAN[] = {{"m", "moveto "}, {"l", "lineto "}, {"c", "curveto "}, {"k", "setcmykcolor "}, {"K", "setcmykcolor "}, {"S", "stroke "}, {"f", "closepath fill "}, {"*u", ""}, {"*U", "closepath fill "}};
  for (auto &x : MEAN) if (body.count(x.name) && does(x.name, 0) != x.what) err(d, "prolog", string(x.name) + " is defined to do " + does(x.name, 0));
  for (auto &c : called) if (!defined.count(c.first)) { err(d, "undefined-name", "the name " + c.first + " is used in " + c.second + " and not defined"); return; }
}
static void read_eps(const Bytes &b, Doc &d) {
  auto L = lines(b);
  size_t i = 0;
  int comments = 0, prolog = 0, setup = 0;
  if (L.empty() || !starts(L[0], "%!PS-Adobe")) { bad(d, "no PostScript header"); return; }
  for (; i < L.size(); i++) {
    if (starts(L[i], "%%BoundingBox:") && !bbox(L[i].substr(14), d)) bad(d, L[i]);
    if (L[i] == "%%EndComments") comments++;
    if (L[i] == "%%BeginProlog") prolog++;
    if (L[i] == "%%EndProlog") prolog += 10;
    if (L[i] == "%%BeginSetup") setup++;
    if (L[i] == "%%EndSetup") { setup += 10; break; }
  }
  if (comments != 1 || prolog != 11 || setup != 11) { err(d, "unbalanced", "header sections"); if (setup < 10) { bad(d, "no %%EndSetup"); return; } }
  Pen p(d);
  bool group = false, ended = true;
  for (i++; i < L.size() && d.ok(); i++) {
    if (starts(L[i], "%%Trailer")) break;
    if (!L[i].empty() && L[i][0] == '%') continue;
    for (auto &w : words(L[i])) {
      double v;
      if (number(w, v)) { p.st.push_back(v); continue; }
      if (w == "m" && !ended) err(d, "unbalanced", "a path begins before the one before it is painted");
      if (w == "m") ended = false;
      if (path_op(p, w, "m", "l", "c")) continue;
      if (w == "k" || w == "K") {
        if (!p.need(4, w) || !unit(d, p.st)) return;
        if (group) err(d, "colour-in-group", "colour set inside a compound path");
        (w == "k" ? p.fill : p.stroke) = cmyk(p.st);
      } else if (w == "*u") { if (group) err(d, "unbalanced", "nested *u"); group = true; }
      else if (w == "*U") { if (!group) err(d, "unbalanced", "*U without *u"); group = false; if (!p.pend.empty()) p.paint(false); }
      else if (w == "f") { if (ended) err(d, "unbalanced", "f without path"); ended = true; if (!group) p.paint(false); }
      else if (w == "S") { if (ended) err(d, "unbalanced", "S without path"); ended = true; p.paint(true); }
      else { bad(d, "operator " + w); return; }
      if (!p.st.empty() && w != "k" && w != "K") bad(d, "operands before " + w);
      p.st.clear();
    }
  }
  if (group || !p.pend.empty() || !ended) err(d, "unbalanced", "compound path not finished");
  ps_names(L, d);
  if (i + 2 != L.size() || L[i] != "%%Trailer" || L[i + 1] != "%%EOF") err(d, "trailer", "the file does not end with %%Trailer and %%EOF");
}

// ---- PDF page content and EPD ----
static void pdf_ops(const vector<string> &L, size_t from, Doc &d) {
  Pen p(d);
  for (size_t i = from; i < L.size() && d.ok(); i++) {
    if (!L[i].empty() && L[i][0] == '%') continue;
    for (auto &w : words(L[i])) {
      double v;
      if (number(w, v)) { p.st.push_back(v); continue; }
      if (path_op(p, w, "m", "l", "c")) continue;
      if (w == "rg" || w == "RG") {
        if (!p.need(3, w) || !unit(d, p.st)) return;
        if (!p.pend.empty()) err(d, "colour-in-path", "colour set inside a path");
        (w == "rg" ? p.fill : p.stroke) = rgb3(p.st);
      } else if (w == "f" || w == "S") { if (p.pend.empty()) err(d, "unbalanced", w + " without path"); p.paint(w == "S"); }
      else if (w == "h") p.close();
      else { bad(d, "operator " + w); return; }
      if (!p.st.empty() && w != "rg" && w != "RG") bad(d, "operands before " + w);
      p.st.clear();
    }
  }
  if (!p.pend.empty()) err(d, "unbalanced", fmt("%zu subpaths are never painted", p.pend.size()));
}
static void read_epd(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.empty() || L[0] != "%EPD-1.0") { bad(d, "no EPD header"); return; }
  for (auto &l : L) {
    size_t k = l.find("BBox(");
    if (k != string::npos && k <= 2 && l.back() == ')') {
      vector<double> v;
      if (!nums(l.substr(k + 5, l.size() - k - 6), v, ",") || v.size() != 4) bad(d, l);
      else { d.w = v[2]; d.h = v[3]; }
    }
  }
  pdf_ops(L, 1, d);
}
static void read_pdf(const Bytes &b, Doc &d) {
  string s((const char *)b.data(), b.size());
  if (!starts(s, "%PDF-1.")) { bad(d, "no PDF header"); return; }
  size_t sx = s.rfind("startxref");
  if (sx == string::npos) { bad(d, "no startxref"); return; }
  long off = strtol(s.c_str() + sx + 9, nullptr, 10);
  if (s.substr(s.find_first_of("%", sx)) != "%%EOF\n") err(d, "trailer", "the file does not end with %%EOF");
  vector<long> offs;
  if (off < 0 || (size_t)off >= s.size() || s.compare((size_t)off, 5, "xref\n")) err(d, "startxref", fmt("startxref says %ld, there is no table there", off));
  size_t x = s.rfind("\nxref\n");
  if (x == string::npos) { bad(d, "no xref"); return; }
  unsigned first, n;
  int used = 0;
  if (sscanf(s.c_str() + x + 6, "%u %u\n%n", &first, &n, &used) != 2 || first || n > 1000) { bad(d, "xref section"); return; }
  const char *e = s.c_str() + x + 6 + used;
  const char *end = s.c_str() + s.size();
  for (unsigned k = 0; k < n; k++, e += 20) {
    if (e + 20 > end || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') || e[19] != '\n') { err(d, "xref-entry", fmt("entry %u is not 20 bytes long", k)); break; }
    long o = strtol(e, nullptr, 10);
    if (e[17] == 'n') {
      string want = fmt("%u 0 obj", k);
      if (o < 0 || (size_t)o >= s.size() || s.compare((size_t)o, want.size(), want)) err(d, "object-offset", fmt("object %u is not at %ld", k, o));
    }
  }
  size_t sz = s.find("/Size ", x);
  if (sz == string::npos || strtoul(s.c_str() + sz + 6, nullptr, 10) != n) err(d, "size", "/Size differs from the table");
  size_t tr = s.find("trailer\n", x), rt = tr == string::npos ? tr : s.find("/Root ", tr);
  if (tr == string::npos || tr > sx) err(d, "trailer", "no trailer after the table");
  else if (rt == string::npos || rt > sx) err(d, "root", "the trailer names no root");
  else {
    auto object = [&](unsigned long k) { size_t p = s.find(fmt("\n%lu 0 obj", k)), q = p == string::npos ? p : s.find("endobj", p); return q == string::npos ? string() : s.substr(p, q - p); };
    auto ref = [&](const string &o, const char *key) { size_t p = o.find(key); if (p == string::npos) return string(); p = o.find_first_of("0123456789", p); return object(strtoul(o.c_str() + p, nullptr, 10)); };
    string cat = object(strtoul(s.c_str() + rt + 6, nullptr, 10)), pages = ref(cat, "/Pages "), page = ref(pages, "/Kids"), cont = ref(page, "/Contents ");
    if (cat.find("/Type /Catalog") == string::npos) err(d, "root", "the root is not a catalog");
    else if (pages.find("/Type /Pages") == string::npos) err(d, "root", "the catalog does not name the pages");
    else if (page.find("/Type /Page") == string::npos || pages.find("/Count 1") == string::npos) err(d, "root", "the pages do not name one page");
    else if (cont.find("stream\n") == string::npos) err(d, "root", "the page does not name its contents");
    size_t n1 = 0, n2 = 0;
    for (size_t p = 0; (p = s.find("<<", p)) != string::npos; p += 2) n1++;
    for (size_t p = 0; (p = s.find(">>", p)) != string::npos; p += 2) n2++;
    if (n1 != n2) err(d, "unbalanced", fmt("%zu dictionaries are opened, %zu closed", n1, n2));
  }
  size_t objs = 0, at = 0;
  while ((at = s.find(" 0 obj\n", at)) != string::npos) { objs++; at++; }
  size_t ends = 0;
  at = 0;
  while ((at = s.find("endobj\n", at)) != string::npos) { ends++; at++; }
  if (objs + 1 != n || ends != objs) err(d, "object-count", fmt("%zu objects, %zu ends, table of %u", objs, ends, n));
  size_t mb = s.find("/MediaBox [");
  if (mb == string::npos) { bad(d, "no MediaBox"); return; }
  size_t me = s.find(']', mb);
  if (!bbox(s.substr(mb + 11, me - mb - 11), d)) { bad(d, "MediaBox"); return; }
  size_t st = s.find("stream\n");
  size_t le = s.find("/Length ");
  if (st == string::npos || le == string::npos || le > st) { bad(d, "no stream"); return; }
  size_t len = strtoul(s.c_str() + le + 8, nullptr, 10);
  size_t es = s.find("endstream", st + 7);
  if (es == string::npos) { bad(d, "no endstream"); return; }
  if (st + 7 + len != es && !(s[st + 6 + (es - st - 7)] == '\n' && st + 7 + len + 1 == es)) err(d, "stream-length", fmt("Length is %zu, the stream has %zu bytes", len, es - st - 7));
  string body = s.substr(st + 7, es - st - 7);
  pdf_ops(lines(Bytes(body.begin(), body.end())), 0, d);
}

// ---- P2E ----
static bool g_curves;   // whether the set has curves, for the backendconstraints record
static void read_p2e(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.empty() || !starts(L[0], "%!PS-Adobe")) { bad(d, "no PostScript header"); return; }
  size_t i = 0;
  int constraint = -1;
  for (; i < L.size() && L[i] != "%%EndSetup"; i++) {
    auto w = words(L[i]);
    if (w.size() == 3 && w[2] == "backendconstraints") constraint = atoi(w[0].c_str());
  }
  if (i >= L.size()) { bad(d, "no %%EndSetup"); return; }
  if (constraint != (g_curves ? 0 : 1)) err(d, "flatness", fmt("backendconstraints says %d, the drawing %s curves", constraint, g_curves ? "has" : "has no"));
  Pen p(d);
  int paths = 0, shown = 0;
  bool pages = false, eof = false;
  for (i++; i < L.size() && d.ok(); i++) {
    const string &l = L[i];
    if (!l.empty() && l[0] == '%') {
      auto w = words(l);
      if (w.size() == 3 && w[2] == "pathnumber" && atoi(w[1].c_str()) != ++paths) err(d, "path-number", "path numbers are not consecutive: " + l);
      if (starts(l, "%%BoundingBox:") && !bbox(l.substr(14), d)) bad(d, l);
      if (starts(l, "%%Pages:")) { pages = true; if (trim(l.substr(8)) != "1") err(d, "pages", l); }
      if (l == "%%EOF") { eof = true; if (i + 1 != L.size()) err(d, "trailer", "text after %%EOF"); }
      continue;
    }
    for (auto &w : words(l)) {
      double v;
      if (number(w, v)) { p.st.push_back(v); continue; }
      if (path_op(p, w, "moveto", "lineto", "curveto")) continue;
      if (w == "setcmykcolor") {
        if (!p.need(4, w) || !unit(d, p.st)) return;
        if (!p.pend.empty()) err(d, "colour-in-path", "colour set inside a path");
        p.fill = p.stroke = cmyk(p.st);
      } else if (w == "newpath") p.drop();
      else if (w == "closepath") p.close();
      else if (w == "fill") p.paint(false);
      else if (w == "stroke") p.paint(true);
      else if (w == "showpage") { shown++; p.drop(); }
      else if (w == "setPageSize" || w == "setlinecap" || w == "setmiterlimit" || w == "setlinejoin" || w == "[" || w == "]" || w == "setdash" || w == "setlinewidth") {}
      else { bad(d, "operator " + w); return; }
      p.st.clear();
    }
  }
  if (shown != 1) err(d, "unbalanced", "showpage");
  ps_names(L, d);
  auto once = [&](const char *t) { return std::count_if(L.begin(), L.end(), [&](const string &l) { return starts(l, t); }); };
  for (const char *t : {"%%EndComments", "%%BeginProlog", "%%EndProlog", "%%BeginSetup", "%%EndSetup", "%%Page:", "%%Trailer"}) if (once(t) != 1) err(d, "unbalanced", fmt("%s occurs %d times", t, (int)once(t)));
  if (!pages || !eof) err(d, "trailer", "no %%Pages or %%EOF");
  for (auto &it : d.items) if (it.closed < 0) it.closed = 0;
}

// ---- SK ----
static void read_sk(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.empty() || !starts(L[0], "##Sketch")) { bad(d, "no Sketch header"); return; }
  RGB fill{0, 0, 0}, line{0, 0, 0};
  int fillstate = -1, linestate = -1;   // 1 colour, 0 empty, -1 default
  Item *cur = nullptr;
  int documents = 0, layers = 0;
  for (size_t i = 1; i < L.size() && d.ok(); i++) {
    const string &l = L[i];
    size_t o = l.find('(');
    if (o == string::npos || l.back() != ')') { bad(d, "line " + l); return; }
    string f = l.substr(0, o);
    if (f == "guess_cont") continue;
    if (f == "document") { if (documents++ || layers) err(d, "unbalanced", "more than one document, or one after a layer"); continue; }
    if (f == "layer") { if (!documents || !d.items.empty()) err(d, "unbalanced", "layer before the document or after an object"); layers++; continue; }
    if (!layers) err(d, "unbalanced", f + " outside of a layer");
    vector<double> v;
    if (!nums(l.substr(o), v, "(),")) { bad(d, "line " + l); return; }
    if (f == "fp" || f == "lp") {
      if (v.size() != 3 || !unit(d, v)) { bad(d, l); return; }
      if (f == "fp") { fill = rgb3(v); fillstate = 1; } else { line = rgb3(v); linestate = 1; }
    } else if (f == "fe") fillstate = 0;
    else if (f == "le") linestate = 0;
    else if (f == "b") {
      d.items.push_back(Item());
      cur = &d.items.back();
      cur->has_col = true;
      if (fillstate == 1 && linestate == 0) { cur->stroke = 0; cur->col = fill; }
      else if (linestate == 1 && fillstate != 1) { cur->stroke = 1; cur->col = line; }
      else { bad(d, "fill and line properties of an object are not set"); return; }
      cur->closed = 0;
      fillstate = linestate = -1;
    } else if (f == "bs" || f == "bc") {
      bool cv = f == "bc";
      if (!cur || v.size() != (cv ? 7u : 3u)) { bad(d, l); return; }
      P2 e{v[cv ? 4 : 0], v[cv ? 5 : 1]};
      if (!cur->started) { if (cv) { bad(d, "curve begins an object"); return; } cur->started = true; cur->start = cur->cur = e; continue; }
      cur->segs.push_back(cv ? Seg{AT_CUBICTYPE, cur->cur, P2{v[0], v[1]}, P2{v[2], v[3]}, e} : Seg{AT_LINEARTYPE, cur->cur, cur->cur, e, e});
      cur->cur = e;
    } else if (f == "bC") { if (!cur) { bad(d, l); return; } cur->closed = 1; cur = nullptr; }
    else { bad(d, "function " + f); return; }
  }
}

// ---- EMF ----
static uint32_t le32(const Bytes &b, size_t o) { return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24; }
static int16_t le16(const Bytes &b, size_t o) { return (int16_t)(b[o] | b[o + 1] << 8); }
static uint32_t be32(const Bytes &b, size_t o) { return (uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]; }
static uint16_t be16(const Bytes &b, size_t o) { return (uint16_t)(b[o] << 8 | b[o + 1]); }
static void read_emf(const Bytes &b, Doc &d) {
  if (b.size() < 108 || le32(b, 0) != 1 || le32(b, 40) != 0x464D4520) { bad(d, "no EMF header"); return; }
  d.w = le32(b, 16);
  d.h = le32(b, 20);
  if (le32(b, 8) || le32(b, 12)) err(d, "frame", "bounds do not start at 0 0");
  for (int k = 0; k < 2; k++) {          // the frame in hundredths of millimetres
    double px = le32(b, 72 + 4 * k), mm = le32(b, 80 + 4 * k), want = (k ? d.h : d.w) * mm * 100 / px;
    if (px <= 0 || mm <= 0 || le32(b, 24 + 4 * k) || fabs(le32(b, 32 + 4 * k) - want) > 1) err(d, "frame", fmt("frame of %u, expected %.1f by the device size", le32(b, 32 + 4 * k), want));
  }
  if (le32(b, 44) != 0x10000 || le16(b, 58)) err(d, "header", "version or reserved field");
  if (le32(b, 48) != b.size()) err(d, "file-size", fmt("header says %u bytes, the file has %zu", le32(b, 48), b.size()));
  unsigned nrec = le32(b, 52), nhand = (uint16_t)le16(b, 56), desc = le32(b, 60), descoff = le32(b, 64);
  if (descoff + 2ull * desc > le32(b, 4)) err(d, "description", fmt("description of %u characters at %u exceeds the header record of %u bytes", desc, descoff, le32(b, 4)));
  else {
    int zeros = 0;                       // "program\0title\0\0"; a title can have a character written as 0
    for (unsigned k = 0; k < desc; k++) if (!le16(b, descoff + 2 * k)) zeros++;
    if (desc && (zeros < 3 || le16(b, descoff + 2 * (desc - 1)) || le16(b, descoff + 2 * (desc - 2)))) err(d, "description", fmt("description of %u characters is not two strings", desc));
  }
  std::map<uint32_t, std::pair<int, RGB>> obj;    // handle -> kind, colour
  int pen = -2, brush = -2;                       // -2 default, -1 stock
  RGB pencol{0, 0, 0}, brushcol{0, 0, 0};
  size_t o = 0;
  unsigned recs = 0;
  bool inpath = false, eof = false;
  Item cur;
  bool have = false;
  while (o + 8 <= b.size() && !eof) {
    uint32_t t = le32(b, o), n = le32(b, o + 4);
    if (n < 8 || n % 4 || o + n > b.size()) { err(d, "record-size", fmt("record %u of type %u has size %u", recs, t, n)); bad(d, "record size"); return; }
    recs++;
    auto size = [&](uint32_t want) { if (n != want) err(d, "record-size", fmt("record type %u has size %u, not %u", t, n, want)); return n >= want; };
    switch (t) {
      case 1: if (o) { bad(d, "second header"); return; } break;
      case 14: if (size(20)) { if (le32(b, o + 16) != n || le32(b, o + 8)) err(d, "eof-record", "last size of the end record"); } eof = true; break;
      case 17: case 18: case 19: case 20: case 22: if (size(12) && t == 19 && le32(b, o + 8) - 1 > 1) err(d, "fill-mode", fmt("fill mode %u", le32(b, o + 8))); break;
      case 9: case 10: case 11: case 12: size(16); break;
      case 38: case 39: {
        if (!size(t == 38 ? 28 : 24)) { bad(d, "pen or brush"); return; }
        uint32_t h = le32(b, o + 8);
        if (obj.count(h)) err(d, "handle", fmt("handle %u is created twice", h));
        if (!h || h >= nhand) err(d, "handle", fmt("handle %u, the header says %u handles", h, nhand));
        size_t co = o + (t == 38 ? 24 : 16);
        if (le32(b, o + 12) || b[co + 3]) err(d, "style", fmt("pen or brush of style %u", le32(b, o + 12)));
        obj[h] = {t == 38 ? 1 : 2, RGB{b[co], b[co + 1], b[co + 2]}};
        break;
      }
      case 37: {
        if (!size(12)) { bad(d, "select"); return; }
        uint32_t h = le32(b, o + 8);
        if (h & 0x80000000u) { if (h == 0x80000008u) pen = -1; break; }
        if (!obj.count(h)) { err(d, "handle", fmt("handle %u is selected but does not exist", h)); break; }
        if (obj[h].first == 1) { pen = (int)h; pencol = obj[h].second; } else { brush = (int)h; brushcol = obj[h].second; }
        break;
      }
      case 40: {
        if (!size(12)) { bad(d, "delete"); return; }
        uint32_t h = le32(b, o + 8);
        if (!obj.erase(h)) err(d, "handle", fmt("handle %u is deleted but does not exist", h));
        break;
      }
      case 59: size(8); if (inpath) err(d, "unbalanced", "nested path"); inpath = true; cur = Item(); have = true; break;
      case 60: size(8); if (!inpath) err(d, "unbalanced", "path end without begin"); inpath = false; break;
      case 61: size(8); cur.closed = 1; break;
      case 27: case 54: {
        if (!size(16) || !inpath) { bad(d, "move or line outside of a path"); return; }
        P2 p{(double)(int32_t)le32(b, o + 8), (double)(int32_t)le32(b, o + 12)};
        if (t == 27) { if (cur.started) { bad(d, "second start in a path"); return; } cur.started = true; cur.start = cur.cur = p; }
        else { if (!cur.started) { bad(d, "line before start"); return; } cur.segs.push_back(Seg{AT_LINEARTYPE, cur.cur, cur.cur, p, p}); cur.cur = p; }
        break;
      }
      case 88: {
        if (n < 28 || !inpath || !cur.started) { bad(d, "curve outside of a path"); return; }
        uint32_t np = le32(b, o + 24);
        if (n != 28 + 4ull * np || np % 3) { err(d, "point-count", fmt("curve record of %u bytes says %u points", n, np)); bad(d, "curve record"); return; }
        for (uint32_t k = 0; k < np; k += 3) {
          P2 q[3];
          for (int m = 0; m < 3; m++) q[m] = P2{(double)le16(b, o + 28 + 4 * (k + m)), (double)le16(b, o + 30 + 4 * (k + m))};
          cur.segs.push_back(Seg{AT_CUBICTYPE, cur.cur, q[0], q[1], q[2]});
          cur.cur = q[2];
        }
        break;
      }
      case 62: case 64: {
        if (!size(24) || inpath || !have) { bad(d, "painting without a path"); return; }
        have = false;
        cur.stroke = t == 64;
        cur.has_col = true;
        if (t == 64) { if (pen < 0) err(d, "handle", "stroking without a pen"); cur.col = pencol; if (pen >= 0 && !obj.count((uint32_t)pen)) err(d, "handle", "stroking with a deleted pen"); }
        else { if (brush < 0) err(d, "handle", "filling without a brush"); cur.col = brushcol; if (brush >= 0 && !obj.count((uint32_t)brush)) err(d, "handle", "filling with a deleted brush"); }
        d.items.push_back(cur);
        break;
      }
      default: bad(d, fmt("record type %u", t)); return;
    }
    o += n;
  }
  if (!eof || o != b.size()) err(d, "trailer", fmt("the records end at %zu of %zu bytes", o, b.size()));
  if (recs != nrec) err(d, "record-count", fmt("header says %u records, there are %u", nrec, recs));
  if (!obj.empty()) err(d, "handle", fmt("%zu objects are never deleted", obj.size()));
  if (inpath || have) err(d, "unbalanced", "path not painted");
}

// ---- CGM ----
static void read_cgm(const Bytes &b, Doc &d, const char *name) {
  size_t o = 0;
  int meta = 0, pic = 0, body = 0, fig = 0;
  bool fillok = false, lineok = false, ended = false, direct = false, solid = false;
  RGB fill{0, 0, 0}, line{0, 0, 0};
  Item cur;
  while (o + 2 <= b.size() && !ended) {
    unsigned w = be16(b, o);
    unsigned cls = w >> 12, id = (w >> 5) & 127;
    size_t n = w & 31;
    o += 2;
    if (n == 31) { if (o + 2 > b.size()) { bad(d, "element length"); return; } n = be16(b, o); o += 2; if (n & 0x8000) { bad(d, "partitioned element"); return; } }
    if (o + n > b.size()) { err(d, "element-length", fmt("element %u/%u of %zu bytes exceeds the file", cls, id, n)); bad(d, "element length"); return; }
    size_t e = o;
    o += n + (n & 1);
    auto size = [&](size_t want) { if (n != want) { err(d, "element-length", fmt("element %u/%u has %zu bytes, not %zu", cls, id, n, want)); bad(d, "element length"); } return n == want; };
    unsigned el = cls << 8 | id;
    switch (el) {
      case 0x001: {
        if (meta++) err(d, "unbalanced", "metafile begins twice");
        size_t len = n ? b[e] : 0, so = 1;
        if (len == 255) { len = be16(b, e + 1); so = 3; }
        if (so + len != n) err(d, "string-length", fmt("name of %zu bytes in an element of %zu bytes", len, n));
        else if (len > strlen(name) || memcmp(&b[e + so], name, len) || (len < strlen(name) && len < 32000)) err(d, "name", "the name is not the one given");
        break;
      }
      case 0x002: meta += 10; ended = true; break;
      case 0x003: if (pic++ || meta != 1) err(d, "unbalanced", "picture begins"); if (n && (size_t)b[e] + 1 != n) err(d, "string-length", "picture name"); break;
      case 0x004: body++; if (pic != 1 || meta != 1) err(d, "unbalanced", "body outside of picture"); break;
      case 0x005: pic += 10; if (body != 1) err(d, "unbalanced", "picture ends"); break;
      case 0x101: if (size(2) && (be16(b, e) < 1 || be16(b, e) > 4)) err(d, "header", fmt("version %u", be16(b, e))); if (pic) err(d, "unbalanced", "metafile version in a picture"); break;
      case 0x102: if (!n || (size_t)b[e] + 1 != n) err(d, "string-length", "description"); break;
      case 0x10B: if (n < 2 || n != 2 + 4ull * be16(b, e)) err(d, "element-length", fmt("element list of %zu bytes", n)); break;
      case 0x202: if (size(2) && be16(b, e) != 1) err(d, "colour", "colours are not direct"); direct = true; break;
      case 0x206: if (size(8)) { int16_t v[4]; for (int k = 0; k < 4; k++) v[k] = (int16_t)be16(b, e + 2 * k); d.w = (uint16_t)v[2]; d.h = (uint16_t)v[1]; if (v[0] || v[3]) err(d, "frame", fmt("extent from %d,%d to %d,%d", v[0], v[1], v[2], v[3])); } break;
      case 0x504: if (size(3)) { line = RGB{b[e], b[e + 1], b[e + 2]}; lineok = true; } break;
      case 0x517: if (size(3)) { fill = RGB{b[e], b[e + 1], b[e + 2]}; fillok = true; } break;
      case 0x516: if (size(2)) solid = be16(b, e) == 1; break;
      case 0x51E: if (size(2) && be16(b, e) > 1) err(d, "style", "edge visibility"); break;
      case 0x008: case 0x00F: if (fig) err(d, "unbalanced", "nested figure"); fig = id == 8 ? 1 : 2; cur = Item(); break;
      case 0x009: case 0x010:
        if (fig != (id == 9 ? 1 : 2)) err(d, "unbalanced", fmt("figure of kind %d ended by %u", fig, id));
        fig = 0;
        cur.stroke = id == 16;
        cur.has_col = true;
        cur.col = id == 16 ? line : fill;
        if (id == 16 ? !lineok : !fillok) err(d, "colour", "no colour set");
        if (!direct) err(d, "colour", "colours are not direct");
        if (id == 9 && !solid) err(d, "style", "a figure is not filled");
        d.items.push_back(cur);
        break;
      case 0x401: case 0x41A: {
        if (!fig) { bad(d, "primitive outside of a figure"); return; }
        size_t p0 = el == 0x401 ? e : e + 2;
        size_t want = el == 0x401 ? 8 : 18;
        if (!size(want)) return;
        if (el == 0x41A && be16(b, e) != 1 && be16(b, e) != 2) err(d, "style", fmt("continuity %u", be16(b, e)));
        vector<P2> q;
        for (size_t k = p0; k < e + n; k += 4) q.push_back(P2{(double)(int16_t)be16(b, k), (double)(int16_t)be16(b, k + 2)});
        if (!cur.started) { cur.started = true; cur.start = q[0]; }
        cur.segs.push_back(el == 0x401 ? Seg{AT_LINEARTYPE, q[0], q[0], q[1], q[1]} : Seg{AT_CUBICTYPE, q[0], q[1], q[2], q[3]});
        break;
      }
      default: bad(d, fmt("element %u/%u", cls, id)); return;
    }
    if (!d.ok()) return;
  }
  if (meta != 11 || pic != 11 || body != 1 || fig) err(d, "unbalanced", "metafile or picture not ended");
  if (o != b.size()) err(d, "trailer", fmt("%zu bytes after the end of the metafile", b.size() - o));
}

// ---- DR2D ----
static float ieee(const Bytes &b, size_t o) { uint32_t u = be32(b, o); float f; memcpy(&f, &u, 4); return f; }
static void read_dr2d(const Bytes &b, Doc &d) {
  if (b.size() < 12 || memcmp(&b[0], "FORM", 4) || memcmp(&b[8], "DR2D", 4)) { bad(d, "no FORM DR2D"); return; }
  if (be32(b, 4) + 8ull != b.size()) err(d, "form-size", fmt("FORM says %u bytes, the file has %zu", be32(b, 4), b.size()));
  vector<RGB> cmap;
  size_t o = 12;
  int seen_drhd = 0, seen_cmap = 0;
  std::set<int> layers, dashes;
  bool attr = false, box = false;
  int fill = -1, cidx = -1;
  double bb[4] = {0, 0, 0, 0};
  while (o < b.size()) {
    if (o + 8 > b.size()) { err(d, "chunk-size", "rest of the file is no chunk"); break; }
    string id((const char *)&b[o], 4);
    size_t n = be32(b, o + 4), e = o + 8;
    if (e + n > b.size()) { err(d, "chunk-size", fmt("chunk %s of %zu bytes exceeds the file", id.c_str(), n)); bad(d, "chunk size"); return; }
    o = e + n + (n & 1);
    if (id == "DRHD") {
      if (n != 16 || seen_drhd++) { bad(d, "DRHD"); return; }
      if (ieee(b, e) != 0 || ieee(b, e + 4) != 0) err(d, "frame", "frame does not start at 0 0");
      d.w = ieee(b, e + 8);
      d.h = ieee(b, e + 12);
    } else if (id == "PPRF") {
      int z = 0;
      for (size_t k = e; k < e + n; k++) if (!b[k]) z++;
      if (z != 4 || b[e + n - 1]) err(d, "chunk-size", "PPRF is not four strings");
      static const char *const KEYS[] = {"Units=", "Portrait=", "PageType=", "GridSize="};
      size_t k = e;
      for (auto key : KEYS) {
        string t;
        while (k < e + n && b[k]) t += (char)b[k++];
        k++;
        double v;
        if (!starts(t, key) || t.size() == strlen(key) || (!strcmp(key, "GridSize=") && (!number(t.substr(9), v) || v <= 0))) err(d, "preferences", "PPRF has " + t + " in place of " + key);
      }
    } else if (id == "LAYR") { if (n != 20) err(d, "chunk-size", "LAYR"); else layers.insert(be16(b, e)); }
    else if (id == "DASH") { if (n < 4 || n != 4 + 4ull * be16(b, e + 2)) err(d, "chunk-size", "DASH"); else dashes.insert(be16(b, e)); }
    else if (id == "CMAP") {
      if (n % 3 || seen_cmap++) { bad(d, "CMAP"); return; }
      for (size_t k = e; k < e + n; k += 3) cmap.push_back(RGB{b[k], b[k + 1], b[k + 2]});
      std::set<RGB> u(cmap.begin(), cmap.end());
      if (u.size() != cmap.size()) err(d, "colour-map", "colour map has duplicates");
    } else if (id == "BBOX") { if (n != 16) { bad(d, "BBOX"); return; } for (int k = 0; k < 4; k++) bb[k] = ieee(b, e + 4 * k); box = true; }
    else if (id == "ATTR") {
      if (n != 14) { bad(d, "ATTR"); return; }
      fill = b[e];
      if (b[e + 2] && !dashes.count(b[e + 2])) err(d, "reference", fmt("dash pattern %d does not exist", b[e + 2]));
      if (!layers.count(be16(b, e + 8))) err(d, "reference", fmt("layer %d does not exist", be16(b, e + 8)));
      if (!(ieee(b, e + 10) >= 0)) err(d, "reference", "line thickness");
      if (fill > 1) err(d, "style", fmt("fill %d", fill));
      cidx = (int16_t)be16(b, e + 4);
      if (cidx != (int16_t)be16(b, e + 6)) err(d, "colour-map", "edge and fill colours differ");
      attr = true;
    } else if (id == "CPLY" || id == "OPLY") {
      if (!attr || !box) err(d, "unbalanced", "polygon without attributes or box");
      Item it;
      it.closed = id == "CPLY";
      it.stroke = fill == 0;
      if (cidx < 0 || cidx >= (int)cmap.size()) err(d, "colour-map", fmt("colour %d of %zu", cidx, cmap.size()));
      else { it.has_col = true; it.col = cmap[(size_t)cidx]; }
      if (n < 2 || n != 2 + 8ull * be16(b, e)) { err(d, "point-count", fmt("polygon chunk of %zu bytes says %u points", n, n >= 2 ? be16(b, e) : 0)); bad(d, "polygon"); return; }
      size_t k = e + 2, end = e + n;
      double lo[2] = {1e30, 1e30}, hi[2] = {-1e30, -1e30}, clo[2] = {1e30, 1e30}, chi[2] = {-1e30, -1e30};
      auto ext = [&](P2 p, bool c) { double v[2] = {p.x, p.y}; for (int q = 0; q < 2; q++) { if (!c) lo[q] = std::min(lo[q], v[q]), hi[q] = std::max(hi[q], v[q]); clo[q] = std::min(clo[q], v[q]); chi[q] = std::max(chi[q], v[q]); } };
      while (k < end) {
        if (be32(b, k) == 0xFFFFFFFFu) {
          if (be32(b, k + 4) != 1 || k + 40 > end) { err(d, "point-count", "curve marker without four points"); bad(d, "polygon"); return; }
          P2 q[4];
          for (int m = 0; m < 4; m++) q[m] = P2{ieee(b, k + 8 + 8 * m), ieee(b, k + 12 + 8 * m)}, ext(q[m], m == 1 || m == 2);
          if (!it.started) { it.started = true; it.start = q[0]; }
          it.segs.push_back(Seg{AT_CUBICTYPE, q[0], q[1], q[2], q[3]});
          it.cur = q[3];
          k += 40;
        } else {
          P2 q{ieee(b, k), ieee(b, k + 4)};
          ext(q, false);
          if (!it.started) { it.started = true; it.start = q; }
          else it.segs.push_back(Seg{AT_LINEARTYPE, it.cur, it.cur, q, q});
          it.cur = q;
          k += 8;
        }
      }
      double ep = 0.002;
      for (int q = 0; q < 2; q++) {
        double m = ep + 1e-6 * (fabs(clo[q]) + fabs(chi[q]));
        if (bb[q] > lo[q] + m || bb[q] < clo[q] - m || bb[q + 2] < hi[q] - m || bb[q + 2] > chi[q] + m) err(d, "box", fmt("box %g..%g, the list extends %g..%g", bb[q], bb[q + 2], lo[q], hi[q]));
      }
      d.items.push_back(it);
      attr = box = false;
    } else { bad(d, "chunk " + id); return; }
  }
  if (!seen_drhd || !seen_cmap) err(d, "unbalanced", "no DRHD or CMAP");
  if (attr || box) err(d, "unbalanced", "attributes without polygon");
}

// ---- POV ----
static void read_pov(const Bytes &b, Doc &d) {
  auto L = lines(b);
  size_t i = 0;
  while (i < L.size()) {
    if (trim(L[i]).empty()) { i++; continue; }
    if (trim(L[i]) != "prism {") { bad(d, "line " + L[i]); return; }
    if (i + 5 > L.size() || trim(L[i + 1]) != "bezier_spline") { bad(d, "prism"); return; }
    size_t n = strtoul(trim(L[i + 4]).c_str(), nullptr, 10);
    Item it;
    vector<P2> q;
    size_t k = i + 5;
    bool comma = true;
    for (; k < L.size() && trim(L[k])[0] == '<'; k++) {
      vector<double> v;
      string t = trim(L[k]);
      if (!comma) err(d, "unbalanced", "point rows not separated");
      comma = t.back() == ',';
      if (!nums(t, v, "<>,") || v.size() != 8) { bad(d, "line " + t); return; }
      for (int m = 0; m < 4; m++) q.push_back(P2{v[2 * m], v[2 * m + 1]});
    }
    if (comma) err(d, "unbalanced", "row of points missing");
    if (n != q.size()) err(d, "point-count", fmt("prism says %zu points, it has %zu", n, q.size()));
    for (size_t m = 0; m + 3 < q.size(); m += 4) it.segs.push_back(Seg{0, q[m], q[m + 1], q[m + 2], q[m + 3]});
    vector<double> v;
    string t = k < L.size() ? trim(L[k]) : "";
    if (!starts(t, "pigment {rgb<") || t.size() < 16 || !nums(t.substr(13, t.size() - 15), v, ",") || v.size() != 3 || !unit(d, v)) { bad(d, "line " + t); return; }
    it.has_col = true;
    it.col = rgb3(v);
    k++;
    while (k < L.size() && starts(trim(L[k]), "translate")) k++;
    if (k >= L.size() || trim(L[k]) != "}") { err(d, "unbalanced", "prism not closed"); return; }
    d.items.push_back(it);
    i = k + 1;
  }
}

// ---- ER ----
static void read_er(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.empty() || !starts(L[0], "#Elastic Reality")) { bad(d, "no header"); return; }
  vector<string> stack;
  Item it;
  long bp = -1, cp = -1;
  vector<P2> pts;
  vector<double> wts, cor;
  string list;
  int shapes = 0;
  for (size_t i = 1; i < L.size() && d.ok(); i++) {
    string t = trim(L[i]);
    if (t.empty()) continue;
    if (t[0] == '#') { if (starts(t, "#Shape Number") && atoi(t.c_str() + 13) != ++shapes) err(d, "shape-number", t); continue; }
    if (t == "}") {
      if (stack.empty()) { err(d, "unbalanced", "} without {"); return; }
      string f = stack.back();
      stack.pop_back();
      if (f == "Shape") {
        if (bp * 3 != (long)pts.size()) err(d, "point-count", fmt("BPoints is %ld, there are %zu/3 points", bp, pts.size()));
        if (it.closed < 0) err(d, "unbalanced", "a shape says nothing about being closed");
        for (size_t k = 0; k < cor.size(); k++) if (cor[k] < (k ? cor[k - 1] : 0) || cor[k] > (double)bp) { err(d, "correspondence", fmt("correspondence point %zu is %g of %ld", k, cor[k], bp)); break; }
        if (cp != (long)cor.size()) err(d, "point-count", fmt("CPoints is %ld, there are %zu", cp, cor.size()));
        if (!wts.empty() && (long)wts.size() != bp * 3) err(d, "point-count", fmt("BPoints is %ld, there are %zu weights", bp, wts.size()));
        if (pts.size() < 3 || pts.size() % 3) { bad(d, "shape without points"); return; }
        it.started = true;
        it.start = pts[1];
        size_t n = pts.size() / 3;
        for (size_t k = 0; k + 1 < n; k++) it.segs.push_back(Seg{0, pts[3 * k + 1], pts[3 * k + 2], pts[3 * k + 3], pts[3 * k + 4]});
        if (it.closed == 1) it.segs.push_back(Seg{0, pts[3 * n - 2], pts[3 * n - 1], pts[0], pts[1]});
        it.pts = pts;
        it.widths = wts;
        d.items.push_back(it);
      }
      continue;
    }
    size_t eq = t.find(" = ");
    if (t.back() == '{' && eq != string::npos) {
      string nm = t.substr(0, eq);
      stack.push_back(nm);
      if (nm == "Shape") { it = Item(); bp = cp = -1; pts.clear(); wts.clear(); cor.clear(); if (stack.size() != 1) err(d, "unbalanced", "nested shape"); }
      continue;
    }
    if (stack.empty()) { bad(d, "line " + t); return; }
    if (stack.back() == "PointList") {
      vector<double> v;
      if (!nums(t, v, "(),")) { bad(d, "line " + t); return; }
      string key = stack.size() > 1 ? stack[stack.size() - 2] : "";
      if (key == "FormKey") { if (v.size() % 2) { bad(d, t); return; } for (size_t k = 0; k < v.size(); k += 2) pts.push_back(P2{v[k], v[k + 1]}); }
      else if (key == "WeightKey") wts.insert(wts.end(), v.begin(), v.end());
      else if (key == "CorrKey") cor.insert(cor.end(), v.begin(), v.end());
      else bad(d, "point list of " + key);
      continue;
    }
    if (eq == string::npos) { bad(d, "line " + t); return; }
    string k = t.substr(0, eq), v = t.substr(eq + 3);
    if (k == "Width") d.w = atof(v.c_str());
    if (k == "Height") d.h = atof(v.c_str());
    if (k == "Closed") { it.closed = v == "True"; if (v != "True" && v != "False") bad(d, t); }
    if (k == "BPoints") bp = atol(v.c_str());
    if (k == "CPoints") cp = atol(v.c_str());
  }
  if (!stack.empty()) err(d, "unbalanced", "{ not closed");
}

// ---- FIG ----
static void read_fig(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.size() < 9 || !starts(L[0], "#FIG 3.2")) { bad(d, "no FIG header"); return; }
  std::map<int, RGB> pal;
  const RGB basic[8] = {{0, 0, 0}, {0, 0, 255}, {0, 255, 0}, {0, 255, 255}, {255, 0, 0}, {255, 0, 255}, {255, 255, 0}, {255, 255, 255}};
  for (int i = 0; i < 8; i++) pal[i] = basic[i];
  vector<string> w;
  size_t i = 9;
  bool objects = false;
  auto more = [&](size_t n, vector<double> &out) {     // numbers on the following indented lines
    out.clear();
    while (i < L.size() && !L[i].empty() && L[i][0] == '\t' && out.size() < n) {
      for (auto &t : words(L[i])) { double v; if (!number(t, v)) { bad(d, "point " + t); return; } out.push_back(v); }
      i++;
    }
  };
  while (i < L.size() && d.ok()) {
    w = words(L[i]);
    if (w.empty()) { i++; continue; }
    if (L[i][0] == '\t') { err(d, "point-count", "more numbers than the object says"); bad(d, "stray numbers"); return; }
    i++;
    if (w[0] == "0") {
      if (objects) err(d, "unbalanced", "colour defined after objects");
      unsigned rr, gg, bb;
      if (w.size() != 3 || w[2].size() != 7 || sscanf(w[2].c_str(), "#%02x%02x%02x", &rr, &gg, &bb) != 3) { bad(d, "colour " + L[i - 1]); return; }
      int n = atoi(w[1].c_str());
      if (n < 32 || n > 543 || pal.count(n)) err(d, "colour-number", fmt("colour number %d", n));
      pal[n] = RGB{(unsigned char)rr, (unsigned char)gg, (unsigned char)bb};
      continue;
    }
    objects = true;
    vector<double> v, p, x;
    if (!nums(L[i - 1], v, "")) { bad(d, "object " + L[i - 1]); return; }
    Item it;
    size_t np;
    if (w[0] == "3" && v.size() == 14) np = (size_t)v[13];
    else if (w[0] == "2" && v.size() == 16) np = (size_t)v[15];
    else { bad(d, "object " + L[i - 1]); return; }
    int fillcode = (int)v[8];
    it.stroke = fillcode < 0;
    it.index = (int)v[4];
    if (v[4] != v[5]) err(d, "colour-number", "pen and fill colours differ");
    if (!pal.count(it.index)) err(d, "colour-number", fmt("colour %d is not defined", it.index));
    else { it.has_col = true; it.col = pal[it.index]; }
    it.depth = (int)v[6];
    if (it.depth < 0 || it.depth > 999) err(d, "depth", fmt("depth %d", it.depth));
    int sub = (int)v[1];
    it.closed = w[0] == "3" ? sub == 1 || sub == 3 || sub == 5 : sub == 3;
    more(2 * np, p);
    if (p.size() != 2 * np) { err(d, "point-count", fmt("object says %zu points, %zu numbers follow", np, p.size())); bad(d, "points"); return; }
    for (size_t k = 0; k < p.size(); k += 2) it.pts.push_back(P2{p[k], p[k + 1]});
    if (w[0] == "3") {
      more(np, x);
      if (x.size() != np) { err(d, "point-count", fmt("object says %zu points, %zu weights follow", np, x.size())); bad(d, "weights"); return; }
      for (double y : x) if (y < -1 || y > 1) err(d, "weight", fmt("weight %g", y));
      it.widths = x;
    } else if (sub == 3 && (it.pts.front().x != it.pts.back().x || it.pts.front().y != it.pts.back().y)) err(d, "unbalanced", "polygon does not end where it starts");
    d.items.push_back(it);
  }
}

// ---- DXF ----
static void read_dxf(const Bytes &b, Doc &d) {
  auto L = lines(b);
  if (L.size() % 2) { bad(d, "odd number of lines"); return; }
  string section, table, entity, var;
  std::map<string, int> layers;
  string lname;
  int sections = 0;
  bool open = false, eof = false, wantname = false, first = false;
  Item it;
  string layer, vlayer;
  double x = 0, y = 0;
  bool vertex = false;
  auto endvertex = [&] { if (vertex) { it.pts.push_back(P2{x, y}); if (vlayer != layer) err(d, "layer", "vertex of layer " + vlayer + " in a polyline of layer " + layer); } vertex = false; };
  auto endpoly = [&](bool seq) {
    endvertex();
    if (!open) { if (seq) err(d, "unbalanced", "SEQEND without POLYLINE"); return; }
    if (!seq) err(d, "unbalanced", "POLYLINE without SEQEND");
    open = false;
    if (it.pts.size() < 2) err(d, "point-count", fmt("polyline with %zu vertices", it.pts.size()));
    it.tag = layer;
    if (!layers.count(layer)) err(d, "layer", "layer " + layer + " is not in the table");
    else it.index = layers[layer];
    d.items.push_back(it);
  };
  for (size_t i = 0; i + 1 < L.size(); i += 2) {
    double cd;
    string v = trim(L[i + 1]);
    if (!number(trim(L[i]), cd)) { bad(d, "group code " + L[i]); return; }
    if (eof) { err(d, "trailer", "groups after EOF"); break; }
    int c = (int)cd;
    if (c == 0) {
      entity = v;
      if (v == "SECTION") { if (!section.empty()) err(d, "unbalanced", "nested section"); wantname = true; }
      else if (v == "ENDSEC") { endpoly(false); if (section.empty()) err(d, "unbalanced", "ENDSEC"); section.clear(); }
      else if (v == "TABLE") { if (!table.empty()) err(d, "unbalanced", "nested table"); table = "?"; }
      else if (v == "ENDTAB") { if (table.empty()) err(d, "unbalanced", "ENDTAB"); table.clear(); }
      else if (v == "LAYER") lname.clear();
      else if (v == "EOF") { eof = true; if (!section.empty()) err(d, "unbalanced", "section not ended"); }
      else if (v == "POLYLINE") { if (open) endpoly(false); open = true; first = true; it = Item(); layer.clear(); vertex = false; if (section != "ENTITIES") err(d, "unbalanced", "entity outside of ENTITIES"); }
      else if (v == "VERTEX") { if (!open) { bad(d, "vertex outside of a polyline"); return; } endvertex(); vertex = true; first = false; }
      else if (v == "SEQEND") endpoly(true);
      else { bad(d, "entity " + v); return; }
      continue;
    }
    if (c == 2 && wantname) { section = v; sections++; wantname = false; continue; }
    if (c == 9) { var = v; continue; }
    if (section == "HEADER" && (c == 10 || c == 20) && (var == "$EXTMIN" || var == "$EXTMAX")) {
      double q;
      if (!number(v, q)) { bad(d, "extent " + v); return; }
      if (var == "$EXTMIN") { if (q) err(d, "frame", "EXTMIN"); } else (c == 10 ? d.w : d.h) = q;
      continue;
    }
    if (entity == "LAYER" && c == 2) { lname = v; if (layers.count(v)) err(d, "layer", "layer " + v + " twice"); layers[v] = -1; }
    if (entity == "LAYER" && c == 62) { if (lname.empty()) err(d, "layer", "colour without layer"); layers[lname] = atoi(v.c_str()); }
    if (entity == "POLYLINE" && c == 8) layer = v;
    if (entity == "VERTEX" && c == 8) vlayer = v;
    if ((entity == "VERTEX" || entity == "POLYLINE") && (c == 10 || c == 20)) {
      double q;
      if (!number(v, q)) { bad(d, "coordinate " + v); return; }
      if (entity == "VERTEX") (c == 10 ? x : y) = q;
    }
  }
  (void)first;
  if (!eof) err(d, "trailer", "no EOF");
  if (sections != 3) err(d, "unbalanced", fmt("%d sections", sections));
}

// ---- PLT ----
static void read_plt(const Bytes &b, Doc &d) {
  string s((const char *)b.data(), b.size());
  vector<string> cmd;
  size_t i = 0;
  while (i < s.size()) {
    if (strchr(" \r\n", s[i])) { i++; continue; }
    size_t e = s.find(';', i);
    if (e == string::npos) { bad(d, "instruction without ;"); return; }
    cmd.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  int pen = 0;
  if (cmd.empty() || cmd[0] != "IN") { bad(d, "no IN"); return; }
  bool up = true;
  P2 pos{0, 0};
  for (size_t k = 1; k < cmd.size(); k++) {
    string op = cmd[k].substr(0, 2);
    vector<double> v;
    if (!nums(cmd[k].substr(2), v, " ,")) { bad(d, "instruction " + cmd[k]); return; }
    for (double q : v) if (q != floor(q)) { bad(d, "instruction " + cmd[k]); return; }
    if (op == "IP") { if (v.size() != 4) { bad(d, cmd[k]); return; } }
    else if (op == "SC") { if (v.size() != 4) { bad(d, cmd[k]); return; } if (v[0] || v[2]) err(d, "frame", cmd[k]); d.w = v[1]; d.h = v[3]; }
    else if (op == "SP") { if (v.size() != 1) { bad(d, cmd[k]); return; } pen = (int)v[0]; }
    else if (op == "PU" || op == "PD") {
      if (v.size() % 2) { bad(d, cmd[k]); return; }
      if (op == "PU") { up = true; if (v.size() >= 2) pos = P2{v[v.size() - 2], v[v.size() - 1]}; continue; }
      if (up) { Item it; it.index = pen; it.pts.push_back(pos); d.items.push_back(it); up = false; }
      for (size_t m = 0; m < v.size(); m += 2) { pos = P2{v[m], v[m + 1]}; d.items.back().pts.push_back(pos); }
      if (d.items.back().index != pen) err(d, "pen", "pen changed while down");
    } else { bad(d, "instruction " + cmd[k]); return; }
  }
  if (!up) err(d, "trailer", "the pen is left down");
}

// ---- MIF ----
static void read_mif(const Bytes &b, Doc &d) {
  string s((const char *)b.data(), b.size());
  struct Node { string name, text; vector<Node> kids; };
  Node root;
  vector<Node *> st{&root};
  size_t i = 0;
  while (i < s.size()) {
    char ch = s[i];
    if (ch == '#') { while (i < s.size() && s[i] != '\n') i++; continue; }
    if (ch == '<') {
      st.back()->kids.push_back(Node());
      // pointers into vectors stay valid while only the innermost grows
      st.push_back(&st.back()->kids.back());
      i++;
      while (i < s.size() && (isalnum((unsigned char)s[i]))) st.back()->name += s[i++];
      continue;
    }
    if (ch == '>') { if (st.size() < 2) { err(d, "unbalanced", "> without <"); return; } st.pop_back(); i++; continue; }
    st.back()->text += ch;
    i++;
  }
  if (st.size() != 1) { err(d, "unbalanced", fmt("%zu statements not closed", st.size() - 1)); bad(d, "brackets"); return; }
  if (!trim([&] { string t = root.text; for (char &q : t) if (q == '\n') q = ' '; return t; }()).empty()) err(d, "unbalanced", "text outside of statements");
  std::map<string, vector<double>> cat;
  bool head = false, frame = false;
  for (auto &n : root.kids) {
    if (n.name == "MIFFile") head = true;
    else if (n.name == "Units") { if (trim(n.text) != "Upt") err(d, "units", "units " + n.text); }
    else if (n.name == "ColorCatalog") {
      for (auto &c : n.kids) {
        string tag;
        vector<double> v(4, -1);
        for (auto &f : c.kids) {
          if (f.name == "ColorTag") tag = trim(f.text);
          int k = f.name == "ColorCyan" ? 0 : f.name == "ColorMagenta" ? 1 : f.name == "ColorYellow" ? 2 : f.name == "ColorBlack" ? 3 : -1;
          if (k >= 0 && !number(trim(f.text), v[(size_t)k])) bad(d, "colour " + f.text);
        }
        if (cat.count(tag)) err(d, "colour-tag", "tag " + tag + " twice");
        for (double q : v) if (q < 0 || q > 100) err(d, "colour-tag", "components of " + tag);
        cat[tag] = v;
      }
    } else if (n.name == "Frame") {
      if (frame) err(d, "unbalanced", "two frames");
      frame = true;
      for (auto &k : n.kids) {
        if (k.name == "BRect") {
          vector<double> v;
          string t = k.text;
          size_t p;
          while ((p = t.find("pt")) != string::npos) t.replace(p, 2, "  ");
          if (!nums(t, v, "") || v.size() != 4) { bad(d, "BRect"); return; }
          d.w = v[2];
          d.h = v[3];
        } else if (k.name == "PolyLine" || k.name == "Polygon") {
          Item it;
          string pen = "15", fill = "15";
          it.stroke = k.name == "PolyLine";
          it.closed = !it.stroke;
          int colors = 0;
          for (auto &f : k.kids) {
            if (f.name == "ObColor") {
              string t = trim(f.text);
              if (t.size() < 2 || t[0] != '`' || t.back() != '\'') { bad(d, "colour " + t); return; }
              it.tag = t.substr(1, t.size() - 2);
              colors++;
              if (!cat.count(it.tag)) err(d, "colour-tag", "colour " + it.tag + " is not in the catalog");
              else {
                auto v = cat[it.tag];
                for (double &q : v) q /= 100;
                it.has_col = true;
                it.near = 6;
                it.col = cmyk(v);
              }
            } else if (f.name == "Point") {
              vector<double> v;
              if (!nums(f.text, v, "") || v.size() != 2) { bad(d, "point " + f.text); return; }
              it.pts.push_back(P2{v[0], v[1]});
            } else if (f.name == "Pen") pen = trim(f.text);
            else if (f.name == "Fill") fill = trim(f.text);
            else if (f.name == "Smoothed") { if (trim(f.text) != "No") err(d, "smoothed", "the points of a polyline are to be smoothed"); }
            else if (f.name == "NumPoints") { if ((size_t)atol(f.text.c_str()) != it.pts.size() && atol(f.text.c_str()) < 0) err(d, "point-count", "NumPoints"); }
          }
          if (colors != 1) err(d, "colour-tag", "object without colour");
          if ((pen != "15") != it.stroke || (fill != "15") == it.stroke) err(d, "style", k.name + " with pen " + pen + " and fill " + fill);
          d.items.push_back(it);
        }
      }
    }
  }
  if (!head || !frame) err(d, "unbalanced", "no MIFFile or Frame");
}

// ---- ILD ----
static void read_ild(const Bytes &b, Doc &d) {
  size_t o = 0;
  vector<RGB> tc;
  bool havetc = false, ended = false;
  int frames = 0, total = -1;
  while (o < b.size()) {
    if (o + 8 > b.size() || memcmp(&b[o], "ILDA", 4)) { err(d, "section", fmt("no section at %zu", o)); bad(d, "section"); return; }
    if (ended) { err(d, "trailer", "sections after the empty one"); break; }
    uint32_t f = be32(b, o + 4);
    if (f == 3) {
      if (o + 16 > b.size()) { bad(d, "colour section"); return; }
      uint32_t len = be32(b, o + 8), n = be32(b, o + 12);
      if (len != 3ull * n + 4) err(d, "section-length", fmt("colour section of %u bytes with %u points", len, n));
      if (o + 12 + (uint64_t)len > b.size() || 3ull * n + 4 > len) { bad(d, "colour section"); return; }
      tc.clear();
      for (uint32_t k = 0; k < n; k++) tc.push_back(RGB{b[o + 16 + 3 * k], b[o + 17 + 3 * k], b[o + 18 + 3 * k]});
      havetc = true;
      o += 12 + len;
    } else if (f == 1) {
      if (o + 32 > b.size()) { bad(d, "frame header"); return; }
      size_t n = be16(b, o + 24);
      int fr = be16(b, o + 26), tot = be16(b, o + 28);
      total = tot;
      o += 32;
      if (!n) { ended = true; continue; }
      if (fr != frames) err(d, "frame-number", fmt("frame %d is numbered %d", frames, fr));
      frames++;
      if (o + 6 * n > b.size()) { err(d, "point-count", fmt("frame of %zu points exceeds the file", n)); bad(d, "points"); return; }
      if (!havetc || tc.size() != n) { err(d, "point-count", fmt("%zu points and %zu colours", n, tc.size())); bad(d, "colours"); return; }
      Item it;
      for (size_t k = 0; k < n; k++, o += 6) {
        int st = b[o + 4];
        if ((st & 0x80) != (k + 1 == n ? 0x80 : 0)) err(d, "last-point", fmt("point %zu of %zu has status %x", k, n, st));
        if (st & 0x3f) err(d, "status", fmt("status %x", st));
        if (st & 0x40) continue;
        RGB q = tc[k];
        auto dist = [&](RGB p) { return (p.r - q.r) * (p.r - q.r) + (p.g - q.g) * (p.g - q.g) + (p.b - q.b) * (p.b - q.b); };
        int best = 1 << 30;
        for (auto &p : ILDA_PALETTE) best = std::min(best, dist(p));
        if (dist(ILDA_PALETTE[b[o + 5]]) > best) err(d, "palette", fmt("colour %02x%02x%02x has palette entry %d, which is not the nearest", q.r, q.g, q.b, b[o + 5]));
        it.pts.push_back(P2{(double)(int16_t)be16(b, o), (double)(int16_t)be16(b, o + 2)});
        it.ptcol.push_back(q);
      }
      d.items.push_back(it);
      havetc = false;
    } else { bad(d, fmt("section format %u", f)); return; }
  }
  if (!ended) err(d, "trailer", "no empty section at the end");
  if (total != frames) err(d, "frame-count", fmt("%d frames, the header says %d", frames, total));
}

// ---- UGS ----
static void read_ugs(const Bytes &b, Doc &d) {
  auto L = lines(b);
  int symbol = 0, contour = 0, path = 0;
  std::map<string, long> bear;
  long lox = 0, hix = -1, loy = 0, hiy = 0;
  for (auto &l : L) {
    auto w = words(l);
    if (w.empty()) continue;
    string t = w[0];
    if (t == "symbol") { if (symbol++) err(d, "unbalanced", "symbol"); }
    else if (t == "contour") { if (contour++) err(d, "unbalanced", "contour"); }
    else if (t == "path") { if (path++) err(d, "unbalanced", "nested path"); d.items.push_back(Item()); }
    else if (t == "end" && w.size() == 2) {
      int &c = w[1] == "path" ? path : w[1] == "contour" ? contour : symbol;
      if (w[1] == "path") { if (path != 1) err(d, "unbalanced", "end path"); path = 0; }
      else { if (c != 1) err(d, "unbalanced", "end " + w[1]); c += 10; if (path || (w[1] == "symbol" && contour == 1)) err(d, "unbalanced", "end " + w[1]); }
    } else if (t == "dot-on" || t == "dot-off") {
      vector<double> v;
      if (w.size() != 3 || !nums(w[1] + " " + w[2], v, "") || !path) { bad(d, "line " + l); return; }
      lox = std::min(lox, (long)v[0]); hix = std::max(hix, (long)v[0]); loy = std::min(loy, (long)v[1]); hiy = std::max(hiy, (long)v[1]);
      if (t == "dot-on") d.items.back().pts.push_back(P2{v[0], v[1]});
    } else if (w.size() == 2) bear[t] = atol(w[1].c_str());
    else { bad(d, "line " + l); return; }
  }
  if (symbol != 11 || (contour != 11 && contour != 0) || path) err(d, "unbalanced", "symbol or contour not ended");
  if (bear.count("left-bearing") && bear["left-bearing"] != lox) err(d, "bearing", fmt("left-bearing %ld, dots from %ld", bear["left-bearing"], lox));
  if (bear.count("right-bearing") && bear.count("advance-width") && bear["right-bearing"] != bear["advance-width"] - hix - 1) err(d, "bearing", fmt("right-bearing %ld, dots to %ld", bear["right-bearing"], hix));
  if (bear.count("ascend") && bear["ascend"] != hiy + 1) err(d, "bearing", fmt("ascend %ld, dots up to %ld", bear["ascend"], hiy));
  if (bear.count("descend") && bear["descend"] != loy) err(d, "bearing", fmt("descend %ld, dots down to %ld", bear["descend"], loy));
  if (bear.size() != 5) err(d, "bearing", "bearings missing");
}

// ---- what a format is expected to carry ----
struct Fmt {
  string name;
  double ax = 1, bx = 0, ay = 1, by = 0;     // file = a * spline + b
  double tol = 0, rel = 0;                   // allowed difference in file units: tol + rel * |value|
  bool background = false;                   // holes are painted in the background colour
  bool color = true;
  bool clip = false;                         // points are clipped to 16 bit
  P2 map(double x, double y) const {
    P2 p{ax * x + bx, ay * y + by};
    return p;
  }
  P2 fin(P2 p) const { if (clip) { p.x = std::min(32767.0, std::max(-32768.0, p.x)); p.y = std::min(32767.0, std::max(-32768.0, p.y)); } return p; }
  bool same(P2 a, P2 b) const { return fabs(a.x - b.x) <= tol + rel * fabs(a.x) && fabs(a.y - b.y) <= tol + rel * fabs(a.y); }
};
static Fmt describe(const char *suffix, const at_splines_type *s, int dpi) {
  Fmt f;
  f.name = suffix;
  double W = s->width, H = s->height, M = std::max(W, H);
  string n = suffix;
  if (n == "svg") { f.ay = -1; f.by = H; f.tol = 2.5e-7 * M + 1e-7; f.rel = 6e-6; }
  else if (n == "eps" || n == "ai" || n == "pdf" || n == "epd" || n == "p2e" || n == "pov") { f.tol = 0.00051; f.rel = 2e-7; }
  else if (n == "sk") { f.tol = 1e-9; f.rel = 6e-6; f.background = true; }
  else if (n == "emf" || n == "cgm") { f.ay = -1; f.by = H; f.tol = 1.0005; f.rel = 1e-6; f.background = true; }
  else if (n == "dr2d") {
    double k = W < H ? 11.693 / W : 8.2681 / H;
    f.ax = k; f.ay = -k; f.by = H * k;
    f.tol = 1 / 1024.0 + 3e-7 * H * k; f.rel = 4e-7;
    f.background = true;
  } else if (n == "er") { f.ax = 1 / W; f.ay = 1 / H; f.tol = 6e-7; f.rel = 3e-7; f.color = false; }
  else if (n == "fig") { f.ax = 15; f.bx = 300; f.ay = -15; f.by = H * 15 + 300; f.tol = 1.001; f.rel = 1e-6; f.background = true; }
  else if (n == "dxf") { f.tol = 0.00011; f.rel = 1e-6; f.background = true; }
  else if (n == "plt") { f.tol = 1.0005; f.rel = 1e-6; }
  else if (n == "mif") { double k = 72.0 / dpi; f.ax = k; f.ay = -k; f.by = (H + 1) * k; f.tol = 0.0052 + 1e-6 * H * k; f.rel = 1e-6; f.background = true; }
  else if (n == "ild") { double k = 65535 / M; f.ax = f.ay = k; f.bx = -W / 2 * k; f.by = -H / 2 * k; f.tol = 1.1; f.rel = 1e-6; f.clip = true; }
  else if (n == "ugs") { f.tol = 0.5005; f.rel = 1e-6; f.color = false; }
  return f;
}
static void read_doc(const char *suffix, const Bytes &b, Doc &d, const at_splines_type *s, int dpi, const char *name) {
  string n = suffix;
  Fmt f = describe(suffix, s, dpi);
  g_curves = false;
  for (unsigned i = 0; i < s->length; i++) for (unsigned j = 0; j < s->data[i].length; j++) if (s->data[i].data[j].degree != AT_LINEARTYPE) g_curves = true;
  if (n == "svg") read_svg(b, d);
  else if (n == "eps" || n == "ai") read_eps(b, d);
  else if (n == "pdf") read_pdf(b, d);
  else if (n == "epd") read_epd(b, d);
  else if (n == "p2e") read_p2e(b, d);
  else if (n == "sk") read_sk(b, d);
  else if (n == "emf") read_emf(b, d);
  else if (n == "cgm") read_cgm(b, d, name);
  else if (n == "dr2d") read_dr2d(b, d);
  else if (n == "pov") read_pov(b, d);
  else if (n == "er") read_er(b, d);
  else if (n == "fig") read_fig(b, d);
  else if (n == "dxf") read_dxf(b, d);
  else if (n == "plt") read_plt(b, d);
  else if (n == "mif") read_mif(b, d);
  else if (n == "ild") read_ild(b, d);
  else if (n == "ugs") read_ugs(b, d);
  else harness_error("no reader for %s", suffix);
}
static RGB expected_color(const Fmt &f, const at_splines_type *s, const at_spline_list_type &l) {
  return f.background && l.clockwise && s->background_color ? rgb(*s->background_color) : rgb(l.color);
}
static bool color_ok(const Item &it, RGB e) {
  return abs(it.col.r - e.r) <= it.near && abs(it.col.g - e.g) <= it.near && abs(it.col.b - e.b) <= it.near;
}

// ---- writes one case ----
struct Written { at_splines_type *s = nullptr; at_output_opts_type *o = nullptr; Bytes out; Msgs m; vector<char> name; const char *suffix = ""; bool traced = false; };
static const char *const CURVES[] = {"svg", "eps", "ai", "pdf", "epd", "p2e", "sk", "emf", "cgm", "dr2d", "pov", "er"};
static const char *const POLYS[] = {"fig", "dxf", "plt", "mif", "ild", "ugs"};
// -a whether the program runs in a locale that writes numbers with a comma
static bool comma_locale(bool on) {
  setlocale(LC_ALL, on ? "" : "C");
  char t[16];
  snprintf(t, sizeof t, "%.1f", 1.5);
  return t[1] == ',';
}
static bool produce(Ctx &c, Written &w, const char *suffix, bool anyname, int maxlists, bool nobig) {
  Rng &r = c.rng;
  w.suffix = suffix;
  SplineGen g;
  g.maxdim = nobig || r.p(0.7) ? 300 : 3000;
  g.maxcolors = 12; g.maxlists = 30; g.maxsplines = 30;
  if (r.p(0.06)) { g.maxcolors = 300; g.maxlists = maxlists; }
  if (!strcmp(suffix, "pov")) g.centerline = r.p(0.97) ? 0 : -1;
  w.traced = r.p(0.25);
  w.s = w.traced ? traced_splines(r, 32) : gen_splines(r, g);
  if (!w.s) return false;
  w.o = at_output_opts_new();
  unpoison(w.o, sizeof *w.o);
  if (r.p(0.5)) w.o->dpi = r.range(10, 1200);
  if (anyname) {
    w.name = gen_name(r);
    for (char &ch : w.name) if (ch == '\n' || ch == '\r') ch = ' ';
  } else w.name = {'n', 'a', 'm', 'e', 0};
  bool comma = *c.arg && comma_locale(true);
  const char *path = scratch_path("out");
  FILE *f = fopen(path, "wb");
  if (!f) harness_error("cannot create %s", path);
  at_splines_write(writer(suffix), f, w.name.data(), w.o, w.s, msg_cb, &w.m);
  fclose(f);
  if (*c.arg) { comma_locale(false); if (comma) count("comma_locale"); }
  read_file(path, w.out);
  use_hash(hash_bytes(suffix, strlen(suffix)));
  use_hash(hash_splines(w.s));
  say("%s: %ux%u centerline %d bg %d lists %u dpi %d -> %zu bytes %s\n", suffix, w.s->width, w.s->height, w.s->centerline, w.s->background_color != nullptr, w.s->length, w.o->dpi, w.out.size(), w.m.first);
  if (c.verbose && w.out.size() < 60000) { fwrite(w.out.data(), 1, w.out.size(), stdout); puts(""); fflush(stdout); }
  if (w.m.fatal) {
    bool may = (!strcmp(suffix, "pov") && w.s->centerline) || (!strcmp(suffix, "ild") && w.s->length > 0);
    char k[40];
    snprintf(k, sizeof k, "%s_refused", suffix);
    count(k);
    if (!may) { snprintf(k, sizeof k, "refused-%s", suffix); report(k, "%s refuses to write: %s", suffix, w.m.first); }
  }
  return !w.m.fatal;
}
static void done(Written &w) {
  if (w.o) at_output_opts_free(w.o);
  if (w.s) splines_deep_free(w.s);
}
static string key(const char *what, const char *suffix) { return string(what) + "-" + suffix; }

// ---- C17 ----
MODE(curves) {
  const char *suffix = CURVES[c.idx % (long)(sizeof CURVES / sizeof *CURVES)];
  Written w;
  if (!produce(c, w, suffix, false, 320, false)) { done(w); return; }
  const at_splines_type *s = w.s;
  Fmt f = describe(suffix, s, w.o->dpi);
  Doc d;
  read_doc(suffix, w.out, d, s, w.o->dpi, w.name.data());
  if (!d.ok()) { report(key("unreadable", suffix).c_str(), "%s: %s", suffix, d.bad.c_str()); done(w); return; }
  struct Want { RGB col; bool stroke, open; vector<const at_spline_type *> sp; };
  vector<Want> want;
  bool runs = f.name == "pov";
  for (unsigned i = 0; i < s->length; i++) {
    const auto &l = s->data[i];
    RGB col = expected_color(f, s, l);
    if (!runs || want.empty() || want.back().col != col) want.push_back(Want{col, (bool)(s->centerline || l.open), (bool)l.open, {}});
    for (unsigned j = 0; j < l.length; j++) want.back().sp.push_back(&l.data[j]);
  }
  if (d.items.size() != want.size()) report(key("list-count", suffix).c_str(), "%s: %zu lists were written, %zu are in the file", suffix, want.size(), d.items.size());
  long nseg = 0;
  for (size_t i = 0; i < want.size() && i < d.items.size() && !reported_any(); i++) {
    const Item &it = d.items[i];
    const Want &e = want[i];
    if (f.color && (!it.has_col || !color_ok(it, e.col))) { report(key("colour", suffix).c_str(), "%s: list %zu has colour %02x%02x%02x instead of %02x%02x%02x", suffix, i, it.col.r, it.col.g, it.col.b, e.col.r, e.col.g, e.col.b); break; }
    if (it.stroke >= 0 && it.stroke != (int)e.stroke) { report(key("stroke", suffix).c_str(), "%s: list %zu is %s", suffix, i, it.stroke ? "stroked instead of filled" : "filled instead of stroked"); break; }
    if (it.closed >= 0 && (f.name == "er" || f.name == "p2e" ? it.closed != !e.open : f.name == "dr2d" || f.name == "sk" ? it.closed != !e.stroke : false)) { report(key("closed", suffix).c_str(), "%s: list %zu is %s", suffix, i, it.closed ? "closed" : "open"); break; }
    size_t segs = it.segs.size();
    if (f.name == "er" && !e.open && e.sp.size() == 1 && segs == 2) segs = 1;    // a single closed spline has two points, the second one at the first
    if (segs != e.sp.size()) { report(key("spline-count", suffix).c_str(), "%s: list %zu has %zu splines instead of %zu", suffix, i, it.segs.size(), e.sp.size()); break; }
    for (size_t j = 0; j < e.sp.size(); j++) {
      const at_spline_type &sp = *e.sp[j];
      const Seg &q = it.segs[j];
      bool lin = sp.degree == AT_LINEARTYPE;
      nseg++;
      if (q.deg && (q.deg == AT_LINEARTYPE) != lin) { report(key("degree", suffix).c_str(), "%s: spline %zu of list %zu is a %s", suffix, j, i, lin ? "curve" : "line"); break; }
      P2 p[4];
      for (int k = 0; k < 4; k++) p[k] = f.map(sp.v[k].x, sp.v[k].y);
      if (!f.same(p[0], q.s)) { report(key("start", suffix).c_str(), "%s: spline %zu of list %zu starts at %.9g,%.9g instead of %.9g,%.9g", suffix, j, i, q.s.x, q.s.y, p[0].x, p[0].y); break; }
      if (!f.same(p[3], q.e)) { report(key("end", suffix).c_str(), "%s: spline %zu of list %zu ends at %.9g,%.9g instead of %.9g,%.9g", suffix, j, i, q.e.x, q.e.y, p[3].x, p[3].y); break; }
      P2 c1 = lin ? p[0] : p[1], c2 = lin ? p[3] : p[2];
      if ((!lin || !q.deg) && (!f.same(c1, q.c1) || !f.same(c2, q.c2))) {
        report(key("control", suffix).c_str(), "%s: spline %zu of list %zu (%s) has controls %.9g,%.9g %.9g,%.9g instead of %.9g,%.9g %.9g,%.9g", suffix, j, i, lin ? "line" : "curve", q.c1.x, q.c1.y, q.c2.x, q.c2.y, c1.x, c1.y, c2.x, c2.y);
        break;
      }
    }
    if (!reported_any() && f.name == "er" && s->preserve_width && s->centerline) {
      // widths along the list, three per point
      if (it.widths.empty()) report("width-er", "er: list %zu has no widths", i);
      size_t n = it.widths.size() / 3;
      for (size_t k = 0; k < n && !reported_any(); k++) {
        bool last = k == e.sp.size();
        const at_real_coord &z = last ? e.sp[k - 1]->v[3] : e.sp[k]->v[0];
        // the handles before and after the point
        const at_spline_type *in = k ? e.sp[k - 1] : e.open || e.sp.size() == 1 ? nullptr : e.sp.back(), *out = last ? nullptr : e.sp[k];
        double zs[3] = {in && in->degree != AT_LINEARTYPE ? in->v[2].z : z.z, z.z, out && out->degree != AT_LINEARTYPE ? out->v[1].z : z.z};
        for (size_t t = 0; t < 3; t++) {
          double wz = zs[t] / s->width_weight_factor;
          if (s->width_weight_factor > 0.01 && fabs(wz - it.widths[3 * k + t]) > 1e-5 + 1e-5 * fabs(wz)) { report("width-er", "er: %s of point %zu of list %zu has width %g instead of %g", t == 1 ? "middle" : "handle", k, i, it.widths[3 * k + t], wz); break; }
        }
      }
      count("er_widths", (double)n);
    }
  }
  count("lists", s->length);
  count("splines", (double)nseg);
  char k[24];
  snprintf(k, sizeof k, "%s", suffix);
  count(k);
  c.nontrivial = nseg > 0;
  if (c.nontrivial && !reported_any()) sample("%s: %s %ux%u%s%s, %u lists, %ld splines read back", suffix, w.traced ? "traced" : "generated", s->width, s->height, s->centerline ? " centerline" : "", s->background_color ? " with background" : "", s->length, nseg);
  done(w);
}

// ---- C18 ----
struct Curve {
  int deg;
  P2 p[4];
  const Fmt *f;
  P2 at(double t) const {
    double u = 1 - t;
    P2 q;
    if (deg == AT_LINEARTYPE) q = P2{u * p[0].x + t * p[3].x, u * p[0].y + t * p[3].y};
    else {
      double a = u * u * u, b = 3 * u * u * t, c = 3 * u * t * t, d = t * t * t;
      q = P2{a * p[0].x + b * p[1].x + c * p[2].x + d * p[3].x, a * p[0].y + b * p[1].y + c * p[2].y + d * p[3].y};
    }
    return f->fin(q);
  }
  double speed() const {
    if (deg == AT_LINEARTYPE) return hypot(p[3].x - p[0].x, p[3].y - p[0].y);
    double m = 0;
    for (int i = 0; i < 3; i++) m = std::max(m, hypot(p[i + 1].x - p[i].x, p[i + 1].y - p[i].y));
    return 3 * m;
  }
};
static double cheb(P2 a, P2 b) { return std::max(fabs(a.x - b.x), fabs(a.y - b.y)); }
// the smallest t >= t0 at which the curve passes within tol of v; -1 if there is none
static double first_t(const Curve &c, P2 v, double a, double b, double tol, double sp) {
  P2 q = c.at(a);
  if (cheb(q, v) <= tol) return a;
  if (cheb(c.at((a + b) / 2), v) - sp * (b - a) / 2 > tol) return -1;
  if ((b - a) * sp < tol * 0.05 || b - a < 1e-7) return cheb(c.at(b), v) <= tol * 1.06 ? b : -1;
  double m = (a + b) / 2;
  double t = first_t(c, v, a, m, tol, sp);
  return t >= 0 ? t : first_t(c, v, m, b, tol, sp);
}
static double deviation(const Curve &c, const vector<P2> &v, size_t a, size_t b) {   // how far the curve gets from the polyline
  double worst = 0;
  for (int k = 1; k < 24; k++) {
    P2 q = c.at(k / 24.0);
    double best = hypot(v[a].x - q.x, v[a].y - q.y);
    for (size_t i = a; i < b; i++) best = std::min(best, seg_dist(v[i], v[i + 1], q.x, q.y));
    worst = std::max(worst, best);
  }
  return worst;
}
// how far a curve can get from chords between equidistant parameters
static double chords(const Curve &c, double n) {
  if (c.deg == AT_LINEARTYPE) return 0;
  double m = 0;
  for (int i = 0; i < 2; i++) m = std::max(m, 6 * hypot(c.p[i].x - 2 * c.p[i + 1].x + c.p[i + 2].x, c.p[i].y - 2 * c.p[i + 1].y + c.p[i + 2].y));
  return m / (8 * n * n);
}
static bool g_capped;   // too many ways to read the points of a tiny drawing
// Indices at which the list can have been drawn to its end, starting at `from`.
static vector<size_t> follow(const Fmt &f, const at_spline_list_type &l, const vector<P2> &v, const vector<RGB> *col, RGB want, size_t from, char *why, size_t nwhy) {
  vector<size_t> reach;
  auto colok = [&](size_t i) { return !col || (*col)[i] == want; };
  auto P = [&](const at_real_coord &q) { return f.map(q.x, q.y); };
  if (from >= v.size()) { snprintf(why, nwhy, "there is no point left for its start"); return reach; }
  double tol = f.tol + f.rel * 70000;
  if (f.name != "ild" && f.name != "fig") tol = f.tol + f.rel * 4000;
  P2 st = f.fin(P(l.data[0].v[0]));
  if (cheb(v[from], st) > tol || !colok(from)) {
    snprintf(why, nwhy, "starts at %.6g,%.6g instead of %.6g,%.6g", v[from].x, v[from].y, st.x, st.y);
    return reach;
  }
  reach.push_back(from);
  double unit = f.name == "dxf" ? 1.0 : f.name == "ild" ? 810.0 : 0;
  for (unsigned j = 0; j < l.length; j++) {
    Curve c;
    c.deg = l.data[j].degree;
    c.f = &f;
    for (int k = 0; k < 4; k++) c.p[k] = P(l.data[j].v[k]);
    P2 e = f.fin(c.p[3]);
    double sp = c.speed() + 1e-9;
    double bound = f.name == "ugs" ? 1e30 : std::max(unit, chords(c, 3.4)) + 3 * tol;
    vector<size_t> next;
    for (size_t i : reach) {
      if (cheb(v[i], e) <= tol && deviation(c, v, i, i) <= bound) next.push_back(i);
      double t = 0;
      for (size_t k = i + 1; k < v.size(); k++) {
        if (!colok(k)) break;
        t = first_t(c, v[k], t, 1, tol, sp);
        if (t < 0) break;
        if (cheb(v[k], e) <= tol && deviation(c, v, i, k) <= bound && std::find(next.begin(), next.end(), k) == next.end()) next.push_back(k);
        if (next.size() >= 64) { g_capped = true; break; }
      }
    }
    if (next.empty()) {
      size_t i = reach.back();
      snprintf(why, nwhy, "spline %u (%s from %.6g,%.6g to %.6g,%.6g) is not followed by the points after %.6g,%.6g, the next being %.6g,%.6g", j, c.deg == AT_LINEARTYPE ? "line" : "curve", c.p[0].x, c.p[0].y, e.x, e.y, v[i].x, v[i].y, i + 1 < v.size() ? v[i + 1].x : NAN, i + 1 < v.size() ? v[i + 1].y : NAN);
      return next;
    }
    reach = next;
  }
  return reach;
}
static const RGB PENS[8] = {{0, 0, 0}, {255, 0, 0}, {0, 255, 0}, {255, 255, 0}, {0, 0, 255}, {0xB8, 0, 0x80}, {0, 255, 255}, {255, 0x84, 0}};
static int dist2(const int *a, RGB b) { return (a[0] - b.r) * (a[0] - b.r) + (a[1] - b.g) * (a[1] - b.g) + (a[2] - b.b) * (a[2] - b.b); }
static int dist2(RGB a, RGB b) { return (a.r - b.r) * (a.r - b.r) + (a.g - b.g) * (a.g - b.g) + (a.b - b.b) * (a.b - b.b); }
template <class T> static bool nearest(const T *pal, int n, int idx, RGB c) {
  if (idx < 0 || idx >= n) return false;
  int best = 1 << 30;
  for (int i = 0; i < n; i++) best = std::min(best, dist2(pal[i], c));
  return dist2(pal[idx], c) <= best;
}
MODE(polylines) {
  const char *suffix = POLYS[c.idx % (long)(sizeof POLYS / sizeof *POLYS)];
  Written w;
  bool ild = !strcmp(suffix, "ild");
  if (!produce(c, w, suffix, false, 320, c.rng.p(0.9))) { done(w); return; }
  at_splines_type *s = w.s;
  Fmt f = describe(suffix, s, w.o->dpi);
  Doc d;
  read_doc(suffix, w.out, d, s, w.o->dpi, w.name.data());
  if (!d.ok()) { report(key("unreadable", suffix).c_str(), "%s: %s", suffix, d.bad.c_str()); done(w); return; }
  g_capped = false;
  char why[400] = "";
  long pts = 0;
  for (auto &it : d.items) pts += (long)it.pts.size();
  if (ild) {
    vector<P2> v;
    vector<RGB> col;
    for (auto &it : d.items) { v.insert(v.end(), it.pts.begin(), it.pts.end()); col.insert(col.end(), it.ptcol.begin(), it.ptcol.end()); }
    vector<size_t> at{0};
    for (unsigned i = 0; i < s->length && !reported_any(); i++) {
      RGB e = rgb(s->data[i].color);
      if (e == RGB{0, 0, 0}) continue;     // a laser cannot draw black
      vector<size_t> next;
      for (size_t a : at) {
        auto r = follow(f, s->data[i], v, &col, e, a, why, sizeof why);
        for (size_t q : r) if (std::find(next.begin(), next.end(), q + 1) == next.end()) next.push_back(q + 1);
      }
      if (next.empty() && g_capped) break;
      if (next.empty()) report("path-ild", "ild: list %u of %u: %s", i, s->length, why);
      at = next;
    }
    if (!reported_any() && !g_capped && std::find(at.begin(), at.end(), v.size()) == at.end()) report("extra-ild", "ild: points are left after the last list");
  } else {
    // DXF joins a list to the one before it when it starts where that one ends.
    vector<vector<unsigned>> grp;
    for (int merge = 1; merge >= 0; merge--) {
      grp.clear();
      for (unsigned i = 0; i < s->length; i++) {
        bool join = false;
        if (merge && f.name == "dxf" && i) {
          const auto &a = s->data[i - 1], &b = s->data[i];
          const at_real_coord &pe = a.data[a.length - 1].v[3], &ps = b.data[0].v[0];
          join = lround(pe.x * 10000.0) == lround(ps.x * 10000.0) && lround(pe.y * 10000.0) == lround(ps.y * 10000.0) && expected_color(f, s, a) == expected_color(f, s, b);
        }
        if (join) grp.back().push_back(i); else grp.push_back({i});
      }
      if (f.name != "dxf" || grp.size() == d.items.size()) break;
    }
    if (grp.size() != d.items.size()) report(key("list-count", suffix).c_str(), "%s: %zu paths were written, %zu are in the file", suffix, grp.size(), d.items.size());
    std::map<string, RGB> tags;
    for (size_t g = 0; g < grp.size() && g < d.items.size() && !reported_any(); g++) {
      Item &it = d.items[g];
      size_t at = 0;
      vector<size_t> r{0};
      for (size_t m = 0; m < grp[g].size() && !reported_any(); m++) {
        const auto &l = s->data[grp[g][m]];
        RGB e = expected_color(f, s, l);
        bool stroke = s->centerline || l.open;
        if (f.name == "dxf" && !nearest(DXF_PALETTE, 255, it.index - 1, e)) { report("colour-dxf", "dxf: list %u of colour %02x%02x%02x has colour number %d, which is not the nearest", grp[g][m], e.r, e.g, e.b, it.index); break; }
        if (f.name == "plt" && !nearest(PENS, 8, it.index - 1, e)) { report("colour-plt", "plt: list %u of colour %02x%02x%02x is drawn with pen %d, which is not the nearest", grp[g][m], e.r, e.g, e.b, it.index); break; }
        if ((f.name == "fig" || f.name == "mif") && (!it.has_col || !color_ok(it, e))) { report(key("colour", suffix).c_str(), "%s: list %u has colour %02x%02x%02x instead of %02x%02x%02x", suffix, grp[g][m], it.col.r, it.col.g, it.col.b, e.r, e.g, e.b); break; }
        if (f.name == "mif") {
          if (tags.count(it.tag) && tags[it.tag] != e) { report("colour-mif", "mif: two colours have the same tag %s", it.tag.c_str()); break; }
          tags[it.tag] = e;
        }
        if (f.name == "mif" && it.stroke != (int)stroke) { report("stroke-mif", "mif: list %u is %s", grp[g][m], it.stroke ? "stroked" : "filled"); break; }
        if (f.name == "fig") {
          bool line2 = it.pts.size() <= 2;
          if (!line2 && it.stroke != (int)stroke) { report("stroke-fig", "fig: list %u is %s", grp[g][m], it.stroke ? "stroked" : "filled"); break; }
          if (line2 && it.pts.size() == 1) it.pts.push_back(it.pts[0]);
          if (line2 && l.length == 2) it.pts.push_back(it.pts[0]);        // there and back again
        }
        vector<size_t> next;
        for (size_t a : r) for (size_t q : follow(f, l, it.pts, nullptr, e, a, why, sizeof why)) if (std::find(next.begin(), next.end(), q) == next.end()) next.push_back(q);
        if (next.empty() && g_capped) break;
        if (next.empty()) { report(key("path", suffix).c_str(), "%s: list %u of %u: %s", suffix, grp[g][m], s->length, why); break; }
        r = next;
      }
      (void)at;
      if (!reported_any() && !g_capped && std::find(r.begin(), r.end(), it.pts.size() - 1) == r.end()) report(key("extra", suffix).c_str(), "%s: the path of list %u goes on after its end", suffix, grp[g][0]);
    }
    // FIG paints by depth: what comes later must not disappear below what it covers
    if (f.name == "fig" && !s->centerline && !reported_any()) {
      auto box = [&](const Item &it, double *b) { b[0] = b[1] = 1e30; b[2] = b[3] = -1e30; for (auto &p : it.pts) { b[0] = std::min(b[0], p.x); b[1] = std::min(b[1], p.y); b[2] = std::max(b[2], p.x); b[3] = std::max(b[3], p.y); } };
      for (size_t i = 0; i < d.items.size() && !reported_any(); i++)
        for (size_t j = i + 1; j < d.items.size(); j++) {
          double a[4], b[4];
          box(d.items[i], a); box(d.items[j], b);
          if (a[0] + 2 < b[2] && b[0] + 2 < a[2] && a[1] + 2 < b[3] && b[1] + 2 < a[3] && d.items[j].depth >= d.items[i].depth && d.items[j].depth > 0) {
            report("order-fig", "fig: list %zu overlaps list %zu painted before it but has depth %d, not less than %d", j, i, d.items[j].depth, d.items[i].depth);
            break;
          }
        }
    }
  }
  count("lists", s->length);
  count("points", (double)pts);
  if (g_capped) count("ambiguous");
  count(suffix);
  c.nontrivial = pts > 0;
  if (c.nontrivial && !reported_any()) sample("%s: %s %ux%u%s, %u lists followed by %ld points", suffix, w.traced ? "traced" : "generated", s->width, s->height, s->centerline ? " centerline" : "", s->length, pts);
  done(w);
}

// ---- C19 ----
MODE(records) {
  const char *suffix = WRITERS[c.idx % NWRITERS];
  Written w;
  if (!produce(c, w, suffix, true, c.rng.p(0.2) ? 900 : 320, c.rng.p(0.9))) { done(w); return; }
  const at_splines_type *s = w.s;
  Doc d;
  read_doc(suffix, w.out, d, s, w.o->dpi, w.name.data());
  if (!d.err.empty()) report(key(d.err[0].first.c_str(), suffix).c_str(), "%s: %s", suffix, d.err[0].second.c_str());
  else if (!d.ok()) report(key("unreadable", suffix).c_str(), "%s: %s", suffix, d.bad.c_str());
  string n = suffix;
  bool sized = n != "sk" && n != "ugs" && n != "fig" && n != "pov" && n != "ild";
  Fmt f = describe(suffix, s, w.o->dpi);
  double k = n == "mif" || n == "dr2d" ? f.ax : 1, tol = n == "mif" ? 0.0501 : n == "dr2d" ? 0.00098 : 0;    // MIF writes one digit, DR2D 1/1024
  if (sized && !reported_any() && (fabs(d.w - k * s->width) > tol + 1e-6 * d.w * (k != 1) || fabs(d.h - k * s->height) > tol + 1e-6 * d.h * (k != 1)))
    report(key("frame", suffix).c_str(), "%s: the frame is %g by %g, the bitmap %u by %u at %g", suffix, d.w, d.h, s->width, s->height, k);
  count("bytes", (double)w.out.size());
  count(suffix);
  c.nontrivial = !w.out.empty();
  if (c.nontrivial && !reported_any()) sample("%s: %ux%u, %u lists, %zu bytes: every record agrees", suffix, s->width, s->height, s->length, w.out.size());
  done(w);
}

// ---- C37: GF characters written as UGS ----
MODE(glyph) {
  Rng &r = c.rng;
  char text[200] = "";
  int n = r.range(1, 3);
  for (int k = 0; k < n && !reported_any(); k++) {
    Encoded e = gen_encoded(r, 4, 30);
    const char *path = scratch_path("font.gf"), *out = scratch_path("out.ugs");
    write_file(path, e.data.data(), e.data.size());
    at_input_opts_type *io = at_input_opts_new();
    io->charcode = (unsigned)e.charcode;
    char name[700];
    snprintf(name, sizeof name, "%s", path);
    Msgs m;
    at_bitmap *b = at_bitmap_read(reader("gf"), name, io, msg_cb, &m);
    at_input_opts_free(io);
    if (m.fatal || !b || !b->width) { report("unread", "%s is not read: %s", e.variant, m.first); if (b) at_bitmap_free(b); return; }
    Img im = from_bitmap(b);
    at_fitting_opts_type *o = gen_opts(r, im);
    o->color_count = 0; o->despeckle_level = 0; o->centerline = r.p(0.1);
    at_splines_type *s = at_splines_new(b, o, msg_cb, &m);
    at_fitting_opts_free(o);
    at_bitmap_free(b);
    if (!s) { report("no-splines", "%s", m.first); return; }
    char title[] = "glyph";
    FILE *f = fopen(out, "wb");
    if (!f) harness_error("cannot open %s", out);
    at_splines_write(writer("ugs"), f, title, nullptr, s, msg_cb, &m);
    fclose(f);
    Bytes got;
    read_file(out, got);
    long code = -1, design = -1, val[5];
    bool have[5] = {};
    static const char *const names[] = {"advance-width", "left-bearing", "right-bearing", "ascend", "descend"};
    vector<vector<P2>> paths;
    const Glyph &g = e.glyph;
    long lox = g.minc, loy = g.minr, hix = g.maxc, hiy = g.maxr;
    long edge = g.maxc - 1;      // the last column; whether its right side counts is seen only where no dot is
    for (auto &l : lines(got)) {
      auto w = words(l);
      if (w.size() == 4 && w[0] == "symbol" && w[2] == "design-size") { code = strtol(w[1].c_str(), nullptr, 0); design = atol(w[3].c_str()); }
      else if (w.size() == 1 && w[0] == "path") paths.push_back({});
      else if (w.size() == 3 && (w[0] == "dot-on" || w[0] == "dot-off")) {
        long x = atol(w[1].c_str()), y = atol(w[2].c_str());
        lox = std::min(lox, x); hix = std::max(hix, x); edge = std::max(edge, x); loy = std::min(loy, y); hiy = std::max(hiy, y);
        if (w[0] == "dot-on" && !paths.empty()) paths.back().push_back(P2{(double)x, (double)y});
      } else if (w.size() == 2) for (int i = 0; i < 5; i++) if (w[0] == names[i]) { have[i] = true; val[i] = atol(w[1].c_str()); }
    }
    for (int i = 0; i < 5 && !reported_any(); i++) if (!have[i]) report("missing", "no %s", names[i]);
    if (!reported_any()) {
      long want[5] = {g.advance, lox, g.advance - hix - 1, hiy + 1, loy};
      if (code != g.code) report("code", "character %d is written as symbol %ld", g.code, code);
      else if (fabs((double)design - e.design) > 0.501) report("design-size", "a design size of %.3f pixels is written as %ld", e.design, design);
      else for (int i = 0; i < 5; i++) if (val[i] != want[i] && !(i == 2 && val[i] == g.advance - edge - 1)) { report(names[i], "character %d in columns %ld to %ld, rows %ld to %ld, advancing %ld, dots in %ld to %ld and %ld to %ld: %s is %ld, not %ld", g.code, g.minc, g.maxc, g.minr, g.maxr, g.advance, lox, hix, loy, hiy, names[i], val[i], want[i]); break; }
    }
    // the outlines are where the character is
    if (!reported_any() && paths.size() != s->length) report("paths", "%u lists are written as %zu paths", s->length, paths.size());
    for (unsigned i = 0; i < s->length && !reported_any(); i++) {
      const at_spline_list_type &l = s->data[i];
      if (paths[i].empty()) { report("paths", "path %u has no dots", i); break; }
      P2 a = paths[i][0];
      double x = l.data[0].v[0].x + g.minc, y = l.data[0].v[0].y + g.minr;
      if (fabs(a.x - x) > 0.501 || fabs(a.y - y) > 0.501) report("place", "list %u starts at %.2f %.2f of a character whose corner is %ld %ld, its path at %g %g", i, l.data[0].v[0].x, l.data[0].v[0].y, g.minc, g.minr, a.x, a.y);
      P2 z = paths[i].back();
      const at_real_coord &q = l.data[l.length - 1].v[3];
      if (!reported_any() && (fabs(z.x - q.x - g.minc) > 0.501 || fabs(z.y - q.y - g.minr) > 0.501)) report("place", "list %u ends at %.2f %.2f of a character whose corner is %ld %ld, its path at %g %g", i, q.x, q.y, g.minc, g.minr, z.x, z.y);
    }
    count("characters");
    if (edge != hix) count("edge_without_dot");
    if (g.advance > 2 * g.maxc) count("advance_beyond_twice_the_width");
    use_hash(hash_bytes(got.data(), got.size()));
    if (s->length) c.nontrivial = true;
    snprintf(text, sizeof text, "character %d at %ld %ld, %ux%u, advancing %ld: %u paths", g.code, g.minc, g.minr, s->width, s->height, g.advance, s->length);
    at_splines_free(s);
  }
  sample("%s", text);
}

// Independent parsers (what a conforming file says) and builders (files a user may hand to the readers) of the three
// spline formats and of the VTK output.  Nothing of the library's I/O code is used here.
#ifndef FORMATS_H_
#define FORMATS_H_

#include "anyspline.h"
#include "pugixml.hpp"

namespace aio {
// ------------------------------------------------------------------------------------------------ IGES
inline std::string ParseIges(const std::string &text, std::vector<ref::Spline> *out) {
  auto lines = Lines(text);
  std::map<char, std::vector<std::string>> sec;
  std::string order;
  std::map<char, long> seq;
  for (size_t i = 0; i < lines.size(); ++i) {
    const std::string &l = lines[i];
    if (l.size() != 80) return vp::Cat("line ", i + 1, " has ", l.size(), " columns");
    char s = l[72];
    if (std::string("SGDPT").find(s) == std::string::npos) return vp::Cat("line ", i + 1, " has no section letter in column 73");
    if (order.empty() || order.back() != s) order += s;
    long n;
    if (!Integer(Strip(l.substr(73)), &n) || n != ++seq[s]) return vp::Cat("line ", i + 1, " has a wrong sequence number");
    sec[s].push_back(l.substr(0, 72));
  }
  if (order != "SGDPT" && !(order == "SGT" && sec['D'].empty())) return "sections in order " + order;
  // terminate section
  std::string t = sec['T'][0];
  for (int q = 0; q < 4; ++q) {
    long n;
    if (t[q * 8] != "SGDP"[q] || !Integer(Strip(t.substr(q * 8 + 1, 7)), &n) || n != static_cast<long>(sec["SGDP"[q]].size())) return vp::Cat("terminate section does not count section ", "SGDP"[q]);
  }
  // global section: delimiters and fields in Hollerith form
  std::string g;
  for (auto &l : sec['G']) g += l;
  if (g.rfind("1H,,1H;,", 0) != 0) return "global section does not declare the delimiters";
  std::vector<std::string> gf;
  std::vector<bool> gs;
  bool gend = false;
  for (size_t p = 0; !gend;) {
    while (p < g.size() && g[p] == ' ') ++p;
    if (p >= g.size()) return "global section is not terminated by the record delimiter";
    size_t q = p;
    while (q < g.size() && isdigit(static_cast<unsigned char>(g[q]))) ++q;
    std::string value;
    bool str = q > p && q < g.size() && g[q] == 'H';
    if (str) {
      size_t n = std::stoul(g.substr(p, std::min<size_t>(q - p, 6)));
      if (q + 1 + n >= g.size()) return vp::Cat("global field ", gf.size() + 1, " is longer than the section");
      value = g.substr(q + 1, n);
      p = q + 1 + n;
      while (p < g.size() && g[p] == ' ') ++p;
    } else {
      size_t e = g.find_first_of(",;", p);
      if (e == std::string::npos) return "global section is not terminated by the record delimiter";
      if (e > p && p / 72 != e / 72) return vp::Cat("global field ", gf.size() + 1, " is a number broken over two lines");
      value = Strip(g.substr(p, e - p));
      p = e;
    }
    if (p >= g.size() || (g[p] != ',' && g[p] != ';')) return vp::Cat("global field ", gf.size() + 1, " is not followed by a delimiter");
    gend = g[p++] == ';';
    gf.push_back(value);
    gs.push_back(str);
  }
  if (gf.size() < 24) return vp::Cat("global section has ", gf.size(), " fields");
  for (size_t i = 0; i < gf.size() && i < 25; ++i) {
    bool str = i < 6 || i == 11 || i == 14 || i == 17 || i == 20 || i == 21 || i == 24;
    double x;
    if (gf[i].empty()) continue;
    if (str != gs[i] || (!str && !Number(gf[i], &x))) return vp::Cat("global field ", i + 1, " is '", gf[i], "'");
    if ((i == 17 || i == 24) && !((gf[i].size() == 15 && gf[i][8] == '.') || (gf[i].size() == 13 && gf[i][6] == '.'))) return vp::Cat("global field ", i + 1, " is no date: '", gf[i], "'");
  }
  auto &dir = sec['D'];
  auto &par = sec['P'];
  if (dir.size() % 2 != 0) return "odd number of directory lines";
  std::vector<bool> used(par.size(), false);
  for (size_t e = 0; e < dir.size(); e += 2) {
    long type, type2, start, count;
    if (!Integer(Strip(dir[e].substr(0, 8)), &type) || !Integer(Strip(dir[e + 1].substr(0, 8)), &type2) || type != type2) return vp::Cat("directory entry ", e / 2, ": entity type");
    if (!Integer(Strip(dir[e].substr(8, 8)), &start) || !Integer(Strip(dir[e + 1].substr(24, 8)), &count)) return vp::Cat("directory entry ", e / 2, ": pointer or count");
    if (start < 1 || count < 1 || start - 1 + count > static_cast<long>(par.size())) return vp::Cat("directory entry ", e / 2, " points to parameter lines ", start, "+", count, " of ", par.size());
    std::string data;
    for (long i = start - 1; i < start - 1 + count; ++i) {
      if (used[i]) return vp::Cat("parameter line ", i + 1, " belongs to two entities");
      used[i] = true;
      long back;
      if (!Integer(Strip(par[i].substr(64, 8)), &back) || back != static_cast<long>(e) + 1) return vp::Cat("parameter line ", i + 1, " does not point back to directory entry ", e + 1);
      std::string row = Strip(par[i].substr(0, 64));
      if (!row.empty() && row.back() != ',' && row.back() != ';') return vp::Cat("parameter line ", i + 1, " ends inside of a number");
      data += par[i].substr(0, 64);
    }
    size_t end = data.find(';');
    if (end == std::string::npos || !Strip(data.substr(end + 1)).empty()) return vp::Cat("entity ", e / 2, " is not terminated by the record delimiter");
    std::vector<double> v;
    std::string field;
    for (size_t i = 0; i <= end; ++i) {
      if (data[i] == ',' || data[i] == ';') {
        double x;
        if (!Number(Strip(field), &x)) return vp::Cat("entity ", e / 2, " field ", v.size(), " is '", field, "'");
        v.push_back(x);
        field.clear();
      } else field += data[i];
    }
    size_t pos = 0;
    auto next = [&]() -> double { return pos < v.size() ? v[pos++] : NAN; };
    if (next() != type) return vp::Cat("entity ", e / 2, " parameter data of another type");
    if (type != 126 && type != 128) continue;
    ref::Spline s;
    s.dim = type == 126 ? 1 : 2;
    s.pdim = 3;
    std::vector<double> K, M;
    for (int d = 0; d < s.dim; ++d) K.push_back(next());
    for (int d = 0; d < s.dim; ++d) M.push_back(next());
    if (s.dim == 1) { next(); next(); } else { next(); next(); }
    double poly = next();
    if (poly != 0 && poly != 1) return "polynomial flag";
    s.rational = poly == 0;
    if (s.dim == 1) next(); else { next(); next(); }
    for (int d = 0; d < s.dim; ++d) {
      if (!(K[d] >= 0 && K[d] < 1e5 && M[d] >= 0 && M[d] < 1e3)) return "K or M";
      s.deg.push_back(static_cast<int>(M[d]));
      s.n.push_back(static_cast<int>(K[d]) + 1);
    }
    for (int d = 0; d < s.dim; ++d) {
      std::vector<ld> k;
      for (int i = 0; i < s.n[d] + s.deg[d] + 1; ++i) k.push_back(next());
      s.knots.push_back(k);
    }
    for (int i = 0; i < s.Count(); ++i) s.w.push_back(next());
    for (int i = 0; i < s.Count(); ++i) { std::vector<ld> q; for (int j = 0; j < 3; ++j) q.push_back(next()); s.cp.push_back(q); }
    if (std::isnan(static_cast<double>(s.cp.back()[2]))) return vp::Cat("entity ", e / 2, " has too few parameters");
    for (auto &k : s.knots) {
      double a = next(), b = next();
      if (a != static_cast<double>(k.front()) || b != static_cast<double>(k.back())) return vp::Cat("entity ", e / 2, " gives parameter range ", a, "..", b, " for knots ", k.front(), "..", k.back());
    }
    double bound;
    if (!Number(gf[19], &bound)) bound = 0;
    if (bound != 0) for (auto &q : s.cp) for (ld x : q) if (std::abs(static_cast<double>(x)) > bound * (1 + 1e-12)) return vp::Cat("global section bounds coordinates by ", bound, ", entity ", e / 2, " has ", x);
    out->push_back(s);
  }
  for (size_t i = 0; i < used.size(); ++i) if (!used[i]) return vp::Cat("parameter line ", i + 1, " belongs to no entity");
  return "";
}

// Fields never cross a line here (as the standard demands), with optional blanks, optional entities of other types,
// parameter data in another order than the directory and the parameter range / normal fields of the standard.
inline std::string BuildIges(vp::Rng *r, const std::vector<ref::Spline> &list) {
  struct Entity { int type; std::vector<std::string> data; int start = 0, count = 0; };
  std::vector<Entity> ent;
  int style = r->Int(0, 3);
  bool dexp = r->Chance(0.15);
  auto num = [&](double x) {
    std::string s = Spell(r, x, style);
    if (dexp) for (char &ch : s) if (ch == 'E' || ch == 'e') ch = 'D';
    return s;
  };
  auto other = [&] {
    Entity e;
    e.type = r->Pick(std::vector<int>{110, 100, 116, 314});
    e.data = {std::to_string(e.type)};
    for (int i = 0; i < 6; ++i) e.data.push_back(num(r->Int(-5, 5) * 0.5));
    ent.push_back(e);
  };
  for (auto &s : list) {
    if (r->Chance(0.2)) other();
    Entity e;
    e.type = s.dim == 1 ? 126 : 128;
    e.data.push_back(std::to_string(e.type));
    for (int d = 0; d < s.dim; ++d) e.data.push_back(std::to_string(s.n[d] - 1));
    for (int d = 0; d < s.dim; ++d) e.data.push_back(std::to_string(s.deg[d]));
    e.data.push_back(std::to_string(r->Int(0, 1)));
    e.data.push_back(std::to_string(r->Int(0, 1)));
    e.data.push_back(s.rational ? "0" : "1");
    for (int d = 0; d < s.dim; ++d) e.data.push_back("0");
    for (auto &k : s.knots) for (ld x : k) e.data.push_back(num(static_cast<double>(x)));
    for (ld x : s.w) e.data.push_back(num(static_cast<double>(x)));
    for (auto &q : s.cp) for (int j = 0; j < 3; ++j) e.data.push_back(num(j < s.pdim ? static_cast<double>(q[j]) : 0));
    if (r->Chance(0.7)) {
      for (auto &k : s.knots) { e.data.push_back(num(static_cast<double>(k.front()))); e.data.push_back(num(static_cast<double>(k.back()))); }
      if (s.dim == 1) for (const char *z : {"0.", "0.", "1."}) e.data.push_back(z);
    }
    ent.push_back(e);
  }
  if (r->Chance(0.2)) other();
  // order of the parameter records
  std::vector<size_t> idx(ent.size());
  for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  if (r->Chance(0.3)) for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r->Int(0, static_cast<int>(i) - 1)]);
  std::vector<std::string> par;
  bool blanks = r->Chance(0.3);
  auto right = [](const std::string &s, size_t w) { return std::string(w - std::min(w, s.size()), ' ') + s; };
  for (size_t i : idx) {
    Entity &e = ent[i];
    e.start = static_cast<int>(par.size()) + 1;
    std::vector<std::string> rows{""};
    for (size_t f = 0; f < e.data.size(); ++f) {
      std::string field = e.data[f] + (f + 1 < e.data.size() ? "," : ";");
      if (blanks && r->Chance(0.3)) field = " " + field;
      if (rows.back().size() + field.size() > 64 || (f > 0 && r->Chance(0.02))) rows.push_back("");
      rows.back() += field;
    }
    for (auto &row : rows) par.push_back(row + std::string(64 - row.size(), ' ') + right(std::to_string(2 * i + 1), 8));
    e.count = static_cast<int>(rows.size());
  }
  std::string eol = r->Chance(0.15) ? "\r\n" : "\n";
  std::string o;
  auto line = [&](std::string c, char s, int n) { c.resize(72, ' '); o += c + s + right(std::to_string(n), 7) + eol; };
  line("hand made", 'S', 1);
  line("1H,,1H;,4Htest,4Htest,4Htest,4Htest,32,38,6,308,15,4Htest,1.,2,2HMM,", 'G', 1);
  line("1,0.001,15H20190101.000000,1.E-6,100.,4Htest,4Htest,11,0;", 'G', 2);
  int n = 0;
  for (auto &e : ent) {
    std::string t = right(std::to_string(e.type), 8);
    line(t + right(std::to_string(e.start), 8) + right("0", 8) + right("0", 8) + right("0", 8) + right("0", 8) + right("0", 8) + right("0", 8) + "00000000", 'D', ++n);
    line(t + right("0", 8) + right("0", 8) + right(std::to_string(e.count), 8) + right("0", 8) + right("", 16) + right("E", 8) + right("0", 8), 'D', ++n);
  }
  for (size_t i = 0; i < par.size(); ++i) line(par[i], 'P', static_cast<int>(i) + 1);
  line("S" + right("1", 7) + "G" + right("2", 7) + "D" + right(std::to_string(n), 7) + "P" + right(std::to_string(par.size()), 7), 'T', 1);
  return o;
}

// ------------------------------------------------------------------------------------------------ IRIT
// bracket structured parser: every node is a list of atoms and nodes
struct Node { std::vector<std::string> atoms; std::vector<Node> kids; };
inline bool ParseNode(const std::string &s, size_t *i, Node *n) {   // *i behind '['
  std::string cur;
  auto flush = [&] { if (!cur.empty()) n->atoms.push_back(cur); cur.clear(); };
  for (; *i < s.size(); ++*i) {
    char ch = s[*i];
    if (ch == '[') { flush(); ++*i; Node k; if (!ParseNode(s, i, &k)) return false; n->kids.push_back(k); }
    else if (ch == ']') { flush(); return true; }
    else if (isspace(static_cast<unsigned char>(ch))) flush();
    else cur += ch;
  }
  return false;
}
inline std::string IritSpline(const Node &n, ref::Spline *s) {
  const std::string &kind = n.atoms[0];
  s->dim = kind == "CURVE" ? 1 : (kind == "SURFACE" ? 2 : 3);
  if (static_cast<int>(n.atoms.size()) != 2 + 2 * s->dim + 1 || n.atoms[1] != "BSPLINE") return "header of " + kind;
  for (int d = 0; d < s->dim; ++d) { long x; if (!Integer(n.atoms[2 + d], &x)) return "number of points"; s->n.push_back(static_cast<int>(x)); }
  for (int d = 0; d < s->dim; ++d) { long x; if (!Integer(n.atoms[2 + s->dim + d], &x)) return "order"; s->deg.push_back(static_cast<int>(x) - 1); }
  std::string pt = n.atoms[2 + 2 * s->dim];
  long pd;
  if (pt.size() < 2 || (pt[0] != 'E' && pt[0] != 'P') || !Integer(pt.substr(1), &pd)) return "point type " + pt;
  s->rational = pt[0] == 'P';
  s->pdim = static_cast<int>(pd);
  if (static_cast<int>(n.kids.size()) != s->dim + s->Count()) return vp::Cat(n.kids.size(), " entries for ", s->dim, " knot vectors and ", s->Count(), " points");
  for (int d = 0; d < s->dim; ++d) {
    auto &k = n.kids[d];
    if (k.atoms.empty() || k.atoms[0] != "KV" || !k.kids.empty()) return "knot vector expected";
    std::vector<ld> v;
    for (size_t i = 1; i < k.atoms.size(); ++i) { double x; if (!Number(k.atoms[i], &x)) return "knot " + k.atoms[i]; v.push_back(x); }
    if (static_cast<int>(v.size()) != s->n[d] + s->deg[d] + 1) return "number of knots";
    s->knots.push_back(v);
  }
  for (int i = 0; i < s->Count(); ++i) {
    auto &k = n.kids[s->dim + i];
    if (static_cast<int>(k.atoms.size()) != s->pdim + s->rational || !k.kids.empty()) return vp::Cat("control point ", i);
    std::vector<double> v;
    for (auto &a : k.atoms) { double x; if (!Number(a, &x)) return "coordinate " + a; v.push_back(x); }
    ld w = s->rational ? v[0] : 1;
    std::vector<ld> q;
    for (int j = 0; j < s->pdim; ++j) q.push_back(v[j + s->rational] / w);
    s->w.push_back(w);
    s->cp.push_back(q);
  }
  return "";
}
inline std::string CollectIrit(const Node &n, std::vector<ref::Spline> *out) {
  for (auto &k : n.kids) {
    if (!k.atoms.empty() && (k.atoms[0] == "CURVE" || k.atoms[0] == "SURFACE" || k.atoms[0] == "TRIVAR")) {
      ref::Spline s;
      std::string e = IritSpline(k, &s);
      if (!e.empty()) return e;
      out->push_back(s);
    } else {
      std::string e = CollectIrit(k, out);
      if (!e.empty()) return e;
    }
  }
  return "";
}
inline std::string ParseIrit(const std::string &text, std::vector<ref::Spline> *out) {
  Node root;
  size_t i = 0;
  if (!ParseNode(text + "]", &i, &root) || i != text.size()) return "brackets do not match";
  if (root.kids.size() != 1) return "one object expected";
  return CollectIrit(root, out);
}
inline std::string BuildIrit(vp::Rng *r, const std::vector<ref::Spline> &list) {
  int style = r->Int(0, 3), layout = r->Int(0, 4);
  bool crlf = r->Chance(0.15);
  auto num = [&](ld x) { return Spell(r, static_cast<double>(x), style); };
  auto brk = [&](int indent) -> std::string {
    if (layout == 0) return " ";
    std::string eol = crlf ? "\r\n" : "\n";
    if (layout == 1) return eol;
    return eol + std::string(static_cast<size_t>(indent * (layout == 4 ? 1 : r->Int(1, 4))), layout == 4 ? '\t' : ' ');
  };
  auto gap = [&]() -> std::string { return layout == 3 && r->Chance(0.2) ? (r->Chance(0.5) ? "  " : "\n ") : (layout == 4 && r->Chance(0.1) ? "\t" : " "); };
  std::string o = r->Chance(0.3) ? "A legal comment." + brk(0) : "";
  o += "[OBJECT ALL";
  for (size_t i = 0; i < list.size(); ++i) {
    auto &s = list[i];
    if (r->Chance(0.2)) o += brk(1) + "[OBJECT NUM" + brk(2) + "[NUMBER 4]" + brk(1) + "]";
    if (r->Chance(0.2)) o += brk(1) + "[OBJECT PNT" + brk(2) + "[POINT 1 2 3]" + brk(1) + "]";
    o += brk(1) + "[OBJECT " + (r->Chance(0.2) ? "[COLOR 4] " : "") + "S" + std::to_string(i) + brk(2);
    o += s.dim == 1 ? "[CURVE BSPLINE" : (s.dim == 2 ? "[SURFACE BSPLINE" : "[TRIVAR BSPLINE");
    for (int d = 0; d < s.dim; ++d) o += gap() + std::to_string(s.n[d]);
    for (int d = 0; d < s.dim; ++d) o += gap() + std::to_string(s.deg[d] + 1);
    o += gap() + (s.rational ? "P" : "E") + std::to_string(s.pdim);
    for (auto &k : s.knots) {
      o += brk(3) + "[KV";
      for (ld x : k) o += gap() + num(x);
      o += "]";
    }
    for (size_t p = 0; p < s.cp.size(); ++p) {
      o += brk(3) + "[";
      if (s.rational) o += num(s.w[p]) + gap();
      for (int j = 0; j < s.pdim; ++j) o += (j ? gap() : "") + num(s.cp[p][j] * s.w[p]);
      o += "]";
    }
    o += brk(2) + "]" + brk(1) + "]";
  }
  return o + brk(0) + "]" + (r->Chance(0.5) ? "\n" : "");
}

// ------------------------------------------------------------------------------------------------ XML
inline bool Numbers(const std::string &text, std::vector<ld> *v) {
  for (auto &w : Words(text)) { double x; if (!Number(w, &x)) return false; v->push_back(x); }
  return true;
}
inline std::string ParseXml(const std::string &text, std::vector<ref::Spline> *out) {
  pugi::xml_document doc;
  if (!doc.load_buffer(text.data(), text.size())) return "not well-formed";
  auto list = doc.child("SplineList");
  if (!list) return "no SplineList";
  long declared = -1;
  Integer(Strip(list.attribute("NumberOfSplines").value()), &declared);
  for (auto e : list.children()) {
    ref::Spline s;
    long dim, pdim, vars, count;
    if (std::string(e.name()) != "SplineEntry") return std::string("entry ") + e.name();
    if (!Integer(Strip(e.attribute("splDim").value()), &dim) || !Integer(Strip(e.attribute("spaceDim").value()), &pdim)
        || !Integer(Strip(e.attribute("numOfCntrlPntVars").value()), &vars) || !Integer(Strip(e.attribute("numCntrlPnts").value()), &count)) return "attributes";
    s.dim = static_cast<int>(dim);
    s.pdim = static_cast<int>(pdim);
    s.rational = !e.child("wght").empty();
    std::vector<ld> deg, var;
    if (!Numbers(e.child("deg").text().get(), &deg) || static_cast<long>(deg.size()) != dim) return "degrees";
    for (auto k : e.child("kntVecs").children("kntVec")) {
      std::vector<ld> v;
      if (!Numbers(k.text().get(), &v)) return "knots";
      s.knots.push_back(v);
    }
    if (static_cast<long>(s.knots.size()) != dim) return vp::Cat(s.knots.size(), " knot vectors");
    for (int d = 0; d < s.dim; ++d) { s.deg.push_back(static_cast<int>(deg[d])); s.n.push_back(static_cast<int>(s.knots[d].size()) - s.deg[d] - 1); }
    if (count != s.Count()) return vp::Cat("numCntrlPnts=", count, " for a grid of ", s.Count());
    auto names = Words(e.child("cntrlPntVarNames").text().get());
    if (vars <= 4 && static_cast<long>(names.size()) != vars) return vp::Cat(names.size(), " variable names for ", vars, " variables");
    size_t start = 0;
    for (size_t i = 0; i < names.size(); ++i) if (names[i] == "x") { start = i; break; }
    if (!Numbers(e.child("cntrlPntVars").text().get(), &var) || static_cast<long>(var.size()) != vars * count) return vp::Cat(var.size(), " values for ", vars, " variables of ", count, " points");
    for (long i = 0; i < count; ++i) { std::vector<ld> q; for (long j = 0; j < pdim; ++j) q.push_back(var[i * vars + start + j]); s.cp.push_back(q); }
    if (s.rational) {
      if (!Numbers(e.child("wght").text().get(), &s.w) || static_cast<long>(s.w.size()) != count) return "weights";
    } else s.w.assign(static_cast<size_t>(count), 1.0L);
    out->push_back(s);
  }
  if (declared != static_cast<long>(out->size())) return vp::Cat("NumberOfSplines=", declared, " for ", out->size(), " entries");
  return "";
}
inline std::string BuildXml(vp::Rng *r, const std::vector<ref::Spline> &list) {
  int style = r->Int(0, 3), layout = r->Int(0, 3);
  std::string eol = r->Chance(0.15) ? "\r\n" : "\n";
  auto brk = [&](int in) -> std::string {
    return layout == 0 ? " " : (layout == 1 ? eol : eol + (layout == 2 ? std::string(static_cast<size_t>(4 * in), ' ') : std::string(static_cast<size_t>(in), '\t')));
  };
  auto num = [&](ld x) { return Spell(r, static_cast<double>(x), style); };
  std::string o = r->Chance(0.7) ? "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" : "";
  o += "<SplineList SplineType=\"1\" NumberOfSplines=\"" + std::to_string(list.size()) + "\">" + brk(1);
  for (auto &s : list) {
    int before = r->Chance(0.5) ? r->Int(1, 3) : 0, after = r->Chance(0.5) ? r->Int(1, 3) : 0;
    int vars = before + s.pdim + after;
    static const char *pre[] = {"x_strct", "y_strct", "u"}, *post[] = {"dx", "phi", "xx"}, *coord[] = {"x", "y", "z", "t"};
    std::vector<std::string> attr{vp::Cat("splDim=\"", r->Chance(0.3) ? "  " : "", s.dim, "\""), vp::Cat("spaceDim=\"", s.pdim, "\""),
                                  vp::Cat("numOfCntrlPntVars=\"", r->Chance(0.3) ? " " : "", vars, "\""), vp::Cat("numCntrlPnts=\"", s.Count(), "\"")};
    for (size_t i = attr.size(); i > 1; --i) std::swap(attr[i - 1], attr[r->Int(0, static_cast<int>(i) - 1)]);
    o += "<SplineEntry";
    for (auto &a : attr) o += " " + a;
    o += ">" + brk(2);
    if (r->Chance(0.2)) o += "<!-- a comment -->" + brk(2);
    std::vector<std::string> parts;
    std::string t = "<cntrlPntVarNames>" + brk(3);
    for (int i = 0; i < before; ++i) t += std::string(pre[i]) + " ";
    for (int i = 0; i < s.pdim; ++i) t += std::string(coord[i]) + " ";
    for (int i = 0; i < after; ++i) t += std::string(post[i]) + " ";
    parts.push_back(t + brk(2) + "</cntrlPntVarNames>");
    t = "<cntrlPntVars>" + brk(3);
    int n = 0;
    for (auto &q : s.cp) {
      for (int i = 0; i < vars; ++i) {
        t += num(i >= before && i < before + s.pdim ? q[i - before] : static_cast<ld>(r->Int(-90, 90) * 0.5));
        t += ++n % 5 == 0 ? brk(3) : " ";
      }
    }
    parts.push_back(t + brk(2) + "</cntrlPntVars>");
    if (s.rational) {
      t = "<wght>" + brk(3);
      for (ld w : s.w) t += num(w) + " ";
      parts.push_back(t + brk(2) + "</wght>");
    }
    t = "<deg>" + brk(3);
    for (int d : s.deg) t += std::to_string(d) + brk(3);
    parts.push_back(t + "</deg>");
    t = "<kntVecs>" + brk(3);
    for (auto &k : s.knots) {
      t += "<kntVec>" + brk(4);
      for (ld x : k) t += num(x) + " ";
      t += brk(3) + "</kntVec>" + brk(3);
    }
    parts.push_back(t + "</kntVecs>");
    if (r->Chance(0.3)) parts.push_back("<numEleVars> 3 </numEleVars>");
    if (r->Chance(0.5)) for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r->Int(0, static_cast<int>(i) - 1)]);
    for (auto &p : parts) o += p + brk(2);
    o += "</SplineEntry>" + brk(1);
  }
  return o + "</SplineList>\n";
}

// ------------------------------------------------------------------------------------------------ VTK
struct Vtk { std::vector<std::vector<double>> points; std::vector<std::vector<long>> cells; std::vector<long> types; };
inline std::string ParseVtk(const std::string &text, Vtk *v) {
  auto lines = Lines(text);
  if (lines.size() < 6 || lines[0] != "# vtk DataFile Version 3.0" || lines[2] != "ASCII") return "header";
  std::string rest;
  for (size_t i = 3; i < lines.size(); ++i) rest += lines[i] + "\n";
  auto w = Words(rest);
  size_t i = 0;
  auto word = [&]() -> std::string { return i < w.size() ? w[i++] : ""; };
  long n, m;
  if (word() != "DATASET" || word() != "UNSTRUCTURED_GRID" || word() != "POINTS" || !Integer(word(), &n)) return "points header";
  if (word() != "double") return "point type";
  for (long p = 0; p < n; ++p) {
    std::vector<double> q(3);
    for (auto &x : q) { std::string t = word(); if (!Number(t, &x)) return vp::Cat("point ", p, " of ", n, ": '", t, "'"); }
    v->points.push_back(q);
  }
  if (word() != "CELLS" || !Integer(word(), &n) || !Integer(word(), &m)) return "cells header (or more points than announced)";
  long entries = 0;
  for (long c = 0; c < n; ++c) {
    long k;
    if (!Integer(word(), &k) || k < 1 || k > 8) return vp::Cat("cell ", c);
    std::vector<long> q(static_cast<size_t>(k));
    for (auto &x : q) { if (!Integer(word(), &x)) return vp::Cat("cell ", c); if (x < 0 || x >= static_cast<long>(v->points.size())) return vp::Cat("cell ", c, " refers to point ", x, " of ", v->points.size()); }
    entries += k + 1;
    v->cells.push_back(q);
  }
  if (entries != m) return vp::Cat("cell list announces ", m, " entries, has ", entries);
  if (word() != "CELL_TYPES" || !Integer(word(), &n) || n != static_cast<long>(v->cells.size())) return "cell types header (or more cells than announced)";
  for (long c = 0; c < n; ++c) { long t; if (!Integer(word(), &t)) return "cell type"; v->types.push_back(t); }
  if (i != w.size()) return "text behind the cell types";
  return "";
}
}  // namespace aio
#endif  // FORMATS_H_

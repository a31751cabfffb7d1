// Generators of well-formed problems: diagrams (products of Green's functions)
// and numerical evaluation points.
#pragma once
#include "ami_base.hpp"
#include "ref.hpp"
#include "src.hpp"
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <map>
#include <sstream>

struct Line {
  std::vector<int> alpha, eps;
  int species = 0;
  bool flipped = false; // entered with the opposite overall sign (applied last)
};

struct Diagram {
  int nint = 0, nfreq = 0, neps = 0;
  std::vector<Line> lines;
  std::string family;
  bool ext_bose = false;         // last external frequency is bosonic
  AmiBase::graph_type type = AmiBase::Sigma;
  std::vector<int> fermionic() const {
    std::vector<int> f(nfreq, 1);
    if (ext_bose && nfreq > 0) f[nfreq - 1] = 0;
    return f;
  }
  AmiBase::g_prod_t gprod() const {
    AmiBase::g_prod_t R0;
    for (auto &l : lines) {
      AmiBase::g_struct g(l.eps, l.alpha);
      g.species_ = l.species;
      R0.push_back(g);
    }
    return R0;
  }
};

struct Point {
  std::vector<cd> energy, freq;
  double beta = 1, pref = 1;
  AmiBase::ami_vars vars() const { return AmiBase::ami_vars(energy, freq, beta, pref); }
};

inline std::string fmt(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
inline std::string fmt(cd z) { return "(" + fmt(z.real()) + "," + fmt(z.imag()) + ")"; }
inline std::string fmt(const std::vector<int> &v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "}";
}
inline std::string fmt(const std::vector<cd> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + fmt(v[i]);
  return s + "]";
}
inline std::string dump(const Diagram &d) {
  std::ostringstream o;
  o << d.family << " N_INT=" << d.nint << " type=" << (int)d.type << " G:";
  for (auto &l : d.lines) { o << " a" << fmt(l.alpha) << "e" << fmt(l.eps); if (l.species) o << "s" << l.species; }
  return o.str();
}
inline std::string dump(const Point &p) {
  return "beta=" + fmt(p.beta) + " pref=" + fmt(p.pref) + " energy=" + fmt(p.energy) + " freq=" + fmt(p.freq);
}

struct GenOpt {
  int min_int = 1, max_int = 3;
  int max_lines = 9;
  bool ext_bose = false;   // last frequency is a bosonic external one
  int multi = 1;           // 0 never repeat lines, 1 sometimes, 2 always
  int max_mult = 4;        // cap on the derivative order created by repeats
  bool general = true;     // also non-diagrammatic (network matrix) products
  bool multi_ext = true;   // more than one external frequency
  bool int_eps = true;     // energies given as general integer combinations
  bool flip = true;        // lines entered against their frequency direction
  bool share = true;       // lines of equal frequency share their energy label
  bool species = false;    // random species labels (equal lines keep one)
  bool network = false;    // networks only
  int chain = 0;           // networks of up to this many vertices
  int shapes = 0;          // gen_shape: one in this many cases is an unusual shape
  double budget = 1500;    // gen_shape: bound on the derivatives of a high pole
  bool merge = false;      // gen_shape: energies shared by lines of different frequency
  bool flip_dup = false;   // repeated lines may be entered with the opposite orientation
};

namespace gen_detail {
struct Edge { int u, v; };
// alpha coefficients of every edge of a graph: chords carry their own
// frequency, tree edges follow from conservation; external flows ext[i]=(a,b)
// enter at a and leave at b.
inline bool flows(Src &s, int V, const std::vector<Edge> &E, const std::vector<std::pair<int, int>> &ext,
                  std::vector<std::vector<int>> &alpha, int &nloop) {
  int n = (int)E.size();
  std::vector<int> order = s.perm(n), par(V);
  for (int i = 0; i < V; i++) par[i] = i;
  std::vector<char> tree(n, 0);
  std::vector<std::vector<std::pair<int, int>>> adj(V); // (neighbour, edge)
  struct UF { std::vector<int> &p; int find(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } } uf{par};
  for (int i : order) {
    int a = uf.find(E[i].u), b = uf.find(E[i].v);
    if (a != b) { par[a] = b; tree[i] = 1; adj[E[i].u].push_back({E[i].v, i}); adj[E[i].v].push_back({E[i].u, i}); }
  }
  std::vector<int> chords;
  for (int i : order) if (!tree[i]) chords.push_back(i);
  nloop = (int)chords.size();
  int nf = nloop + (int)ext.size();
  alpha.assign(n, std::vector<int>(nf, 0));
  auto path = [&](int from, int to, int col) -> bool {
    // unit flow along the tree from 'from' to 'to'
    std::vector<int> pv(V, -1), pe(V, -1), q{from};
    pv[from] = from;
    for (size_t h = 0; h < q.size(); h++)
      for (auto &x : adj[q[h]]) if (pv[x.first] < 0) { pv[x.first] = q[h]; pe[x.first] = x.second; q.push_back(x.first); }
    if (pv[to] < 0) return false;
    for (int x = to; x != from; x = pv[x]) {
      int e = pe[x];
      alpha[e][col] += (E[e].v == x && E[e].u == pv[x]) ? 1 : -1;
    }
    return true;
  };
  for (int c = 0; c < nloop; c++) {
    int e = chords[c];
    alpha[e][c] += 1;
    if (E[e].u != E[e].v && !path(E[e].v, E[e].u, c)) return false;
  }
  for (size_t x = 0; x < ext.size(); x++)
    if (ext[x].first != ext[x].second && !path(ext[x].first, ext[x].second, nloop + (int)x)) return false;
  return true;
}
} // namespace gen_detail

// Assigns energy labels. Lines of equal frequency may share a label.
inline void assign_eps(Src &s, Diagram &d, const GenOpt &o, const std::vector<int> &group) {
  int nl = (int)d.lines.size();
  // group[j] >= 0: lines with the same group must share their label
  std::vector<int> lab(nl, -1);
  std::vector<int> sgn(nl, 1);
  int next = 0;
  for (int j = 0; j < nl; j++) {
    for (int i = 0; i < j && lab[j] < 0; i++)
      if (group[i] == group[j]) { lab[j] = lab[i]; sgn[j] = sgn[i]; }
    if (lab[j] < 0 && o.share)
      for (int i = 0; i < j && lab[j] < 0; i++)
        if (d.lines[i].alpha == d.lines[j].alpha) { if (s.chance(1, 3)) { lab[j] = lab[i]; sgn[j] = sgn[i]; } break; }
    if (lab[j] < 0) { lab[j] = next++; }
  }
  std::vector<int> relabel = s.perm(next);
  bool combos = o.int_eps && s.chance(1, 6);
  d.neps = next;
  std::vector<std::vector<int>> rows(next, std::vector<int>(next, 0));
  for (int k = 0; k < next; k++) {
    rows[k][relabel[k]] = 1;
    if (combos) // unit lower-triangular mixing keeps the rows independent
      for (int q = 0; q < next; q++)
        if (relabel[k] > q && s.chance(1, 3)) rows[k][q] = s.sym(2);
  }
  for (int j = 0; j < nl; j++) d.lines[j].eps = rows[lab[j]];
}

inline Diagram gen_diagram(Src &s, const GenOpt &o) {
  using namespace gen_detail;
  for (int attempt = 0;; attempt++) {
    Diagram d;
    d.ext_bose = o.ext_bose;
    int nint = std::max(s.range(o.min_int, o.max_int), s.range(o.min_int, o.max_int));
    std::vector<Edge> E;
    int V;
    std::vector<std::pair<int, int>> ext;
    int fam = attempt >= 6 ? 2 : (int)s.draw(o.general ? 3 : 2);
    if (o.network || (o.chain && s.coin())) fam = 2;
    if (fam < 2) {
      // interaction vertices with two incoming and two outgoing fermion lines
      d.family = o.ext_bose ? "bubble" : "selfenergy";
      int nv = o.ext_bose ? nint - 1 : nint;
      if (nv < 0) nv = 0;
      V = nv;
      std::vector<int> outs, ins;
      for (int v = 0; v < nv; v++) { outs.push_back(v); outs.push_back(v); ins.push_back(v); ins.push_back(v); }
      if (o.ext_bose) {
        V = nv + 2;
        for (int v = nv; v < V; v++) { outs.push_back(v); ins.push_back(v); }
        ext.push_back({nv, nv + 1});
      } else {
        int a = ins[s.draw(ins.size())];
        ins.erase(std::find(ins.begin(), ins.end(), a));
        int b = outs[s.draw(outs.size())];
        outs.erase(std::find(outs.begin(), outs.end(), b));
        ext.push_back({a, b});
      }
      std::vector<int> p = s.perm((int)ins.size());
      bool tadpole = false;
      for (size_t i = 0; i < outs.size(); i++) { E.push_back({outs[i], ins[p[i]]}); if (outs[i] == ins[p[i]]) tadpole = true; }
      if (tadpole && nint > 1 && attempt < 4 && s.chance(2, 3)) continue;
    } else {
      d.family = "network";
      static const int nvs[] = {2, 3, 4, 1, 2, 3, 4, 5, 8};
      V = nvs[s.draw(9)];
      if (o.chain && s.coin()) V = s.range(5, o.chain);
      for (int v = 1; v < V; v++) { int u = s.range(0, v - 1); if (s.coin()) E.push_back({u, v}); else E.push_back({v, u}); }
      for (int c = 0; c < nint; c++) E.push_back({s.range(0, V - 1), s.range(0, V - 1)});
      int ne = o.multi_ext ? s.range(1, s.chance(1, 8) ? 6 : 3) : 1;
      for (int x = 0; x < ne; x++) ext.push_back({s.range(0, V - 1), s.range(0, V - 1)});
    }
    std::vector<std::vector<int>> al;
    int nloop;
    if (!flows(s, V, E, ext, al, nloop)) continue;
    if (nloop < o.min_int || nloop > o.max_int) { if (attempt < 20) continue; }
    d.nint = nloop;
    d.nfreq = nloop + (int)ext.size();
    for (auto &a : al) {
      bool any = false, anyint = false;
      for (size_t q = 0; q < a.size(); q++) if (a[q]) { any = true; if ((int)q < nloop) anyint = true; }
      if (!any) continue;                            // zero-frequency line: a constant
      if (!anyint && d.family == "network" && s.coin()) continue;
      Line l; l.alpha = a; d.lines.push_back(l);
    }
    if (d.lines.empty()) continue;
    std::vector<int> group;
    for (size_t j = 0; j < d.lines.size(); j++) group.push_back((int)j);
    if (o.flip && d.family == "network")
      for (auto &l : d.lines) if (s.chance(1, 4)) for (int &x : l.alpha) x = -x;
    // repeated lines (self-energy insertions)
    if (o.multi == 2 || (o.multi == 1 && s.chance(1, 3))) {
      int extra = s.range(1, std::min(o.max_mult, o.chain ? 2 : nloop <= 1 ? 5 : nloop == 2 ? 3 : 2));
      for (int e = 0; e < extra; e++) {
        if ((int)d.lines.size() >= o.max_lines) break;
        int j = (int)s.draw(d.lines.size());
        Line l = d.lines[j];
        l.flipped = o.flip_dup && s.chance(1, 3) ? !l.flipped : l.flipped;
        int pos = (int)s.draw(d.lines.size() + 1);
        d.lines.insert(d.lines.begin() + pos, l);
        int g0 = group[j];
        group.insert(group.begin() + pos, g0);
      }
    }
    if ((int)d.lines.size() > o.max_lines && attempt < 20) continue;
    assign_eps(s, d, o, group);
    if (o.species) {
      std::map<int, int> sp;
      for (size_t j = 0; j < d.lines.size(); j++) {
        if (!sp.count(group[j])) sp[group[j]] = (int)s.draw(4);
        d.lines[j].species = sp[group[j]];
      }
    }
    for (auto &l : d.lines)
      if (l.flipped) { for (int &x : l.alpha) x = -x; for (int &x : l.eps) x = -x; l.flipped = false; }
    if (s.chance(1, 2)) { // random order of the factors
      std::vector<int> p = s.perm((int)d.lines.size());
      std::vector<Line> nl;
      for (int i : p) nl.push_back(d.lines[i]);
      d.lines = nl;
    }
    if (o.ext_bose) {
      static const AmiBase::graph_type bt[] = {AmiBase::Pi_phuu, AmiBase::Pi_phud, AmiBase::Pi_ppuu, AmiBase::Pi_ppud, AmiBase::FORCE};
      d.type = bt[s.draw(5)];
    } else if (s.chance(1, 3)) {
      static const AmiBase::graph_type ft[] = {AmiBase::Hartree, AmiBase::Bare, AmiBase::Greens, AmiBase::density, AmiBase::DOS, AmiBase::ENERGY};
      d.type = ft[s.draw(6)];
    }
    return d;
  }
}

// A pole of high order next to several other factors.
inline Diagram gen_stack(Src &s, GenOpt o, int max_int = 2, double budget = 8000) {
  o.multi = 0; o.min_int = 1; o.max_int = s.coin() ? 1 : max_int; o.max_lines = 5;
  o.network = s.chance(2, 3);
  Diagram d = gen_diagram(s, o);
  std::vector<int> inner;
  int k0 = -1, others = 0;
  for (size_t j = 0; j < d.lines.size(); j++)
    for (int q = 0; q < d.nint; q++) if (d.lines[j].alpha[q]) { inner.push_back((int)j); break; }
  if (inner.empty()) return d;
  Line l = d.lines[inner[s.draw(inner.size())]];
  for (int q = 0; q < d.nint && k0 < 0; q++) if (l.alpha[q]) k0 = q;
  for (auto &x : d.lines) if (x.alpha[k0] && x.eps != l.eps) others++;
  // every derivative multiplies the number of contributions
  int top = 1;
  for (double n = 1; top < 9; top++) { n *= others + top; if (n > budget || (d.nint > 1 && top >= 4)) break; }
  int m = std::max(1, std::min(top, 7) - (int)s.draw(std::min(top, 2)));
  bool flips = o.flip_dup && s.coin();
  for (int i = 1; i < m; i++) {
    Line x = l;
    if (flips && s.coin()) { for (int &v : x.alpha) v = -v; for (int &v : x.eps) v = -v; }
    d.lines.insert(d.lines.begin() + s.draw(d.lines.size() + 1), x);
  }
  d.family += "+stack";
  return d;
}
// Identifies energy labels, with either sign, of lines of any frequency (bands of one energy).
inline void merge_labels(Src &s, Diagram &d) {
  bool done = false;
  if (s.chance(1, 3) && d.nfreq > d.nint) { // a line that differs from another by an external frequency
    Line l = d.lines[s.draw(d.lines.size())];
    int q = s.range(d.nint, d.nfreq - 1);
    bool inner = false;
    for (int k = 0; k < d.nint; k++) if (l.alpha[k]) inner = true;
    if (inner) {
      l.alpha[q] = l.alpha[q] ? 0 : s.coin() ? 1 : -1;
      d.lines.insert(d.lines.begin() + s.draw(d.lines.size() + 1), l);
      done = true;
    }
  }
  int n = done ? (int)s.draw(2) : s.range(1, 3);
  for (int i = 0; i < n && d.neps > 1; i++) {
    int a = (int)s.draw(d.neps), b = (int)s.draw(d.neps), sg = s.chance(1, 4) ? -1 : 1;
    if (a == b) continue;
    std::vector<Line> old = d.lines;
    bool ok = true;
    for (auto &l : d.lines) {
      l.eps[a] += sg * l.eps[b];
      l.eps[b] = 0;
      bool zero = true;
      for (int x : l.eps) if (x) zero = false;
      if (zero) ok = false;
    }
    if (!ok) d.lines = old; else done = true;
  }
  if (done) d.family += "+shared";
}
// Labels that no line uses, up to a list longer than a machine word.
inline void pad_labels(Src &s, Diagram &d) {
  int k = s.chance(1, 3) ? s.range(20, 70) : s.range(1, 4);
  std::vector<int> at(d.neps);
  int pos = 0, left = k;
  for (int &x : at) { int skip = s.coin() ? (int)s.draw(left + 1) : 0; pos += skip; left -= skip; x = pos++; }
  for (auto &l : d.lines) {
    std::vector<int> e(d.neps + k, 0);
    for (int i = 0; i < d.neps; i++) e[at[i]] = l.eps[i];
    l.eps = e;
  }
  d.neps += k;
  d.family += "+padded";
}
// External frequencies that no line carries, in between the others.
inline void pad_frequencies(Src &s, Diagram &d) {
  if (d.nfreq == d.nint) return;
  int k = s.chance(1, 3) ? s.range(10, 40) : s.range(1, 6), ne = d.nfreq - d.nint;
  std::vector<int> at(ne);
  int pos = 0, left = k;
  for (int &x : at) { int skip = s.coin() ? (int)s.draw(left + 1) : 0; pos += skip; left -= skip; x = pos++; }
  at.back() = ne + k - 1; // the last one stays the last one, statistics hang on it
  for (auto &l : d.lines) {
    std::vector<int> a(d.nfreq + k, 0);
    for (int i = 0; i < d.nint; i++) a[i] = l.alpha[i];
    for (int i = 0; i < ne; i++) a[d.nint + at[i]] = l.alpha[d.nint + i];
    l.alpha = a;
  }
  d.nfreq += k;
  d.family += "+frequencies";
}
inline Diagram gen_shape_plain(Src &s, GenOpt o);
// Mostly an ordinary diagram, sometimes an unusual shape.
inline Diagram gen_shape(Src &s, GenOpt o) {
  Diagram d = gen_shape_plain(s, o);
  if (o.shapes && s.chance(1, 25)) pad_labels(s, d);
  if (o.shapes && o.multi_ext && s.chance(1, 40)) pad_frequencies(s, d);
  return d;
}
inline Diagram gen_shape_plain(Src &s, GenOpt o) {
  if (o.merge) { Diagram d = gen_diagram(s, o); merge_labels(s, d); return d; }
  int kind = o.shapes ? (int)s.draw(3 * o.shapes) : 3;
  if (kind == 0) return gen_stack(s, o, 2, o.budget);
  if (kind == 1) { o.max_int = std::min(o.max_int, 2); o.min_int = std::min(o.min_int, 2); o.multi = std::min(o.multi, 1); o.max_lines = 13; o.chain = 11; return gen_diagram(s, o); }
  if (kind == 2 && o.max_int >= 3) { o.min_int = o.max_int = 4; o.multi = 0; o.max_lines = 9; return gen_diagram(s, o); }
  if (kind >= 3 && kind < 6 && o.shapes) { Diagram d = gen_diagram(s, o); merge_labels(s, d); return d; }
  return gen_diagram(s, o);
}
struct PointOpt {
  bool complex_energy = false; // sometimes complex energies
  bool pref = false;           // prefactor different from 1
  int ext_kind = -1;           // -1 any, 0 Matsubara, 1 real+i*gamma, 2 generic complex
  bool junk = true;            // integrated entries of the frequency list may hold anything
  double emax = 4;
  bool zero_energy = true;     // one energy may be exactly zero (the on-the-fly route then applies its policy, see C11)
  bool wide = true;            // sometimes unusual temperatures, energies of very different size, large Matsubara indices
  std::vector<double> betas{1, 2, 0.5, 5, 8.33, 20, 50};
};

inline Point gen_point(Src &s, const Diagram &d, const PointOpt &o) {
  Point p;
  p.beta = o.betas[s.draw(o.betas.size())];
  if (o.wide && s.chance(1, 6)) p.beta = std::exp(s.real(4));
  for (int i = 0; i < d.neps; i++) {
    double re = s.real(o.emax);
    // tiny label dependent offset keeps simple grid values from coinciding
    re += 1e-3 * std::sin(1.0 + 2.7 * i);
    p.energy.push_back(cd(re, 0));
  }
  if (o.wide && s.chance(1, 8)) // energies of very different size
    for (auto &e : p.energy) if (s.coin()) { static const double m[] = {30, 0.05, 300, 7, 5000}; e *= m[s.draw(5)]; }
  if (o.wide && s.chance(1, 8) && d.neps) { // one energy at a round value
    static const double v[] = {1, -1, 0.5, 2, -4, 0};
    p.energy[s.draw(d.neps)] = v[s.draw(o.zero_energy ? 6 : 5)];
  }
  if (o.complex_energy && s.chance(1, 3))
    for (auto &e : p.energy) e += cd(0, s.real(0.5));
  int kind = o.ext_kind >= 0 ? o.ext_kind : (int)s.draw(3);
  for (int q = 0; q < d.nfreq; q++) {
    cd f = 0;
    bool bose = d.ext_bose && q == d.nfreq - 1;
    if (q >= d.nint) {
      if (kind == 0) { int m = s.sym(o.wide && s.chance(1, 6) ? 300 : 4); f = cd(0, (bose ? 2 * m : 2 * m + 1) * M_PI / p.beta); }
      else if (kind == 1) f = cd(s.real(3), s.pos(0.05, 0.8));
      else f = cd(s.real(3), s.real(3));
      if (o.wide && kind > 0 && s.chance(1, 12)) { // far away, close to the real axis or on it
        static const double m[] = {30, 1000, 0.03}, w[] = {0, 1e-3, 1e-6, 40, 1};
        double x = f.real() * m[s.draw(3)], y = f.imag() * w[s.draw(5)];
        f = cd(x, y + 0.0); // no negative zero
      }
    } else if (o.junk && s.chance(1, 8)) f = cd(s.real(3), s.real(3));
    p.freq.push_back(f);
  }
  p.pref = 1;
  if (o.pref) {
    switch (s.draw(4)) {
    case 0: p.pref = 1; break;
    case 1: p.pref = -1; break;
    case 2: p.pref = s.real(8); break;
    default: p.pref = s.real(1) * 1e3; break;
    }
  }
  return p;
}

inline RefIn ref_in(const Diagram &d, const Point &p) {
  RefIn r;
  r.nint = d.nint;
  for (int k = 0; k < d.nint; k++) r.order.push_back(k);
  r.fermionic = d.fermionic();
  for (auto &l : d.lines) { RefLine x; x.alpha = l.alpha; x.eps = l.eps; r.lines.push_back(x); }
  r.energy = p.energy;
  r.freq = p.freq;
  // integrated entries must not matter
  for (int k = 0; k < d.nint; k++) r.freq[k] = 0;
  r.beta = p.beta;
  return r;
}

inline bool finite(cd z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }

// Tolerance for comparing a double evaluation with the reference: proportional
// to the sum of |contributions|, i.e. to the conditioning of the problem as the
// reference (never the library) measures it.
inline double ref_tol(const RefOut &r, double rel = 1e-10) { return rel * r.scale + r.noise + 1e-250; }
// Inside the well-conditioned domain: denominators and bosonic arguments away from zero.
inline bool ref_good(const RefOut &r, double gap = 2e-3) {
  return r.ok && r.min_den > gap && r.min_bose > gap;
}

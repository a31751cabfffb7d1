// C24: the options of an evaluation do what they are documented to do and nothing
// else: regulator, dropping of derivative or divergent distributions, and settings
// that must not influence a value. The oracle evaluates the symbolic solution itself.
#include "common.hpp"
#include <iostream>
#include <sstream>
using namespace pbt;
typedef AmiBase A;
typedef std::complex<long double> cl;
typedef std::vector<int> V;

struct Opt { double ereg = 0; bool drop_der = false, drop_bose = false, summed_bose = false; };
struct Bad { const char *why; };
struct Eval {
  const Diagram &d;
  const Point &p;
  Opt o;
  long double scale = 0;
  int dropped_der = 0, dropped_bose = 0, regulated_zero = 0;
  Eval(const Diagram &d_, const Point &p_, Opt o_) : d(d_), p(p_), o(o_) {}
  cl lin(const V &k, const std::vector<cd> &v) { cl r = 0; for (size_t i = 0; i < k.size(); i++) r += (long double)k[i] * cl(v[i]); return r; }
  // distribution of one pole, whose energy is exact in binary; cond receives its relative error amplification
  cl dist(const A::pole_struct &x, double &cond) {
    cl E = lin(x.eps_, p.energy);
    int par = 0;
    for (size_t i = 0; i < x.alpha_.size(); i++)
      if (x.alpha_[i] && !(d.ext_bose && i + 1 == x.alpha_.size())) par ^= 1;
    // a bosonic frequency that is summed itself: n(z) with positive weight
    long double weight = 1;
    if ((d.type == A::doubleocc || o.summed_bose) && x.index_ + 1 == (int)x.alpha_.size()) { par ^= 1; weight = -1; }
    double sigma = par ? -1 : 1;
    cond = 1;
    long double re = E.real();
    bool zero = E == cl(0);
    if (zero && sigma < 0) {
      if (o.drop_bose) { dropped_bose++; return 0; }
      regulated_zero++;
    }
    E += (long double)(re < 0 ? -o.ereg : o.ereg);
    if (o.drop_der && x.der_) { dropped_der++; return 0; }
    // distance from the poles of the distribution
    cd z = cd(E) * p.beta;
    double m = std::abs(1.0 + sigma * std::exp(z.real() > 0 ? -z : z));
    if (m < (zero ? 1e-6 : 1e-14)) throw Bad{"singular distribution"};
    if (x.der_ > 8) throw Bad{"high derivative"};
    double sc = 0;
    cd f = ref_fermi_bose(x.der_, sigma, p.beta, cd(E), &sc);
    double a = std::abs(f);
    if (a < 1e-280) { cond = 0; return 0; }
    cond = (sc / a) * (1 + (1 + p.beta * (double)std::abs(E)) * (1 + x.der_) * (1 + 0.05 / m));
    return weight * cl(f);
  }
  cl prod(const A::g_prod_t &g, double &cond) {
    cl v = 1;
    for (auto &f : g) {
      cl den = lin(f.alpha_, p.freq) + lin(f.eps_, p.energy);
      if (std::abs(den) < 1e-3L) throw Bad{"singular propagator"};
      double en = 1;
      for (size_t i = 0; i < f.eps_.size(); i++) en += std::abs(f.eps_[i]) * std::abs(p.energy[i]);
      for (size_t i = 0; i < f.alpha_.size(); i++) en += std::abs(f.alpha_[i]) * std::abs(p.freq[i]);
      cond += en / (double)std::abs(den);
      v /= den;
    }
    return v;
  }
  cl term(double sign, const std::vector<A::pole_struct> &ps, const A::g_prod_t &g) {
    double k = 1;
    cl v = (long double)sign * prod(g, k);
    for (auto &x : ps) { double q; v *= dist(x, q); k += q; }
    scale += std::abs(v) * k;
    return v;
  }
  cl spr(const SPR &s) {
    struct Path { double sign = 1; std::vector<A::pole_struct> ps; };
    std::vector<Path> paths(1);
    for (size_t k = 0; k < s.P.size(); k++) {
      std::vector<Path> next;
      for (size_t j = 0; j < s.P[k].size(); j++)
        for (size_t i = 0; i < s.P[k][j].size(); i++) { Path q = paths[j]; q.sign *= s.S[k][j][i]; q.ps.push_back(s.P[k][j][i]); next.push_back(q); }
      paths = next;
    }
    cl v = 0;
    for (size_t i = 0; i < paths.size(); i++) v += term(paths[i].sign, paths[i].ps, s.R.back()[i]);
    return v;
  }
};
// exact zeros: energies and their sums are exact in binary
static void dyadic(Src &s, Point &p) {
  for (auto &e : p.energy) e = cd(s.sym(200) / 64.0, s.chance(1, 12) ? s.sym(20) / 64.0 : 0);
}
static void run(Ctx &c, bool zeros) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8; g.max_int = 3; g.max_lines = 7; g.multi = s.chance(1, 2) ? 2 : 0; g.ext_bose = s.chance(1, 3); g.flip_dup = true; g.int_eps = false;
  bool summed = g.ext_bose && s.chance(1, 4);
  if (summed) { g.budget = 40; g.multi = s.chance(1, 3) ? 1 : 0; g.max_int = 2; g.multi_ext = false; }
  Diagram d = gen_shape(s, g);
  bool flag = false; // the option bosonic_external says the same as the type doubleocc
  if (summed && d.nfreq == d.nint + 1) { d.nint = d.nfreq; flag = s.coin(); if (!flag) d.type = A::doubleocc; c.label("bosonic frequency summed"); }
  if (zeros) { // some lines share a label, whatever their frequencies
    for (size_t j = 1; j < d.lines.size(); j++) if (s.chance(1, 3)) d.lines[j].eps = d.lines[s.draw(j)].eps;
  }
  PointOpt po; po.pref = true;
  Point p = gen_point(s, d, po);
  dyadic(s, p);
  if (zeros && s.coin()) for (auto &e : p.energy) if (s.chance(1, 3)) e = p.energy[s.draw(p.energy.size())];
  // small, but not zero, and still exact
  if (zeros && s.chance(1, 3)) { int ex = -20 - s.range(0, 25); for (auto &e : p.energy) if (s.chance(1, 2)) e += std::ldexp((double)s.sym(3), ex); c.label("nearly vanishing energies"); }
  Opt o;
  switch (s.draw(4)) {
  case 0: break;
  case 1: o.ereg = s.pos(0, 0.5); break;
  case 2: o.ereg = 1e-8; break;
  default: o.ereg = s.pos(0, 1e-3);
  }
  o.drop_der = s.chance(1, 3);
  o.drop_bose = s.chance(1, 3);
  o.summed_bose = flag;
  std::string w = "E_REG=" + fmt(o.ereg) + (o.drop_der ? " drop_der" : "") + (o.drop_bose ? " drop_bosonic_diverge" : "");
  c.note(dump(d) + " " + dump(p) + " " + w);
  AmiBase a;
  a.drop_der = o.drop_der;
  a.drop_bosonic_diverge = o.drop_bose;
  a.bosonic_external = flag;
  SPR sp = make_spr(a, d, o.ereg);
  A::terms t = make_terms(a, d, o.ereg);
  if (t.size() > 300) c.discard("too many contributions");
  for (auto &r : sp.R.back()) for (auto &f : r) {
    bool z = true;
    for (int x : f.eps_) if (x) z = false;
    for (int x : f.alpha_) if (x) z = false;
    if (z) c.discard("identically vanishing denominator");
  }
  A::ami_vars ev = p.vars();
  Eval e(d, p, o), e2(d, p, o);
  cl want, want2 = 0;
  try {
    want = e.spr(sp);
    for (auto &x : t) want2 += e2.term(x.sign, x.p_list, x.g_list);
  } catch (Bad &b) { c.discard(b.why); }
  double pf = std::abs(p.pref);
  double tol = (double)e.scale * pf * 1e-13 + 1e-250, tol2 = (double)e2.scale * pf * 1e-13 + 1e-250;
  cd v = cd(want * (long double)p.pref), v2 = cd(want2 * (long double)p.pref);
  if (e.dropped_der) c.label("derivative terms dropped");
  if (e.dropped_bose) c.label("divergent terms dropped");
  if (e.regulated_zero) c.label("zero bosonic energy regulated");
  if (o.ereg) c.label("regulator");
  c.nontrivial(tol < 1e-6 * std::abs(v) && (o.ereg || e.dropped_der || e.dropped_bose));
  auto all = [&](const std::string &u) {
    expect_close(c, u + "S/P/R", a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev), v, tol);
    expect_close(c, u + "terms", a.evaluate(sp.parms, t, ev), v2, tol2);
  };
  all("");
  if (!sp.R.back().empty() && sp.R.back().size() < 80) {
    bool empty = false;
    for (auto &r : sp.R.back()) if (r.empty()) empty = true;
    if (!empty) {
      Fact f, ft;
      a.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
      a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
      expect_close(c, "S/P/R, factorised", a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval), v, tol);
      expect_close(c, "terms, factorised", a.evaluate(sp.parms, t, ev, ft.unique, ft.rref, ft.eval), v2, tol2);
    }
  }
  // settings that have no say in the value
  cd base = a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev), baset = a.evaluate(sp.parms, t, ev);
  A::ami_parms pr = sp.parms;
  A::ami_vars ew = ev;
  std::string what;
  std::ostringstream sink;
  std::streambuf *old = nullptr;
  switch (s.draw(6)) {
  case 0: what = "tol"; pr.tol_ = s.pos(0, 1); break;
  case 1: what = "N_EXT"; pr.N_EXT_ = s.range(0, 4); break;
  case 2: what = "gamma"; ew.gamma_ = s.real(2); break;
  case 3: what = "precision_cutoff"; a.precision_cutoff = std::pow(10.0, s.range(-6, 18)); break;
  case 4: what = "exp_max_arg, zero_external_w"; a.exp_max_arg = s.pos(0, 10); a.zero_external_w = true; break;
  default: if (t.size() < 20) { what = "verbose"; a.verbose = true; old = std::cout.rdbuf(sink.rdbuf()); } else { what = "interaction type"; pr.int_type_ = (A::int_type)1; }
  }
  cd b1 = a.evaluate(pr, sp.R, sp.P, sp.S, ew), b2 = a.evaluate(pr, t, ew);
  if (old) std::cout.rdbuf(old);
  c.label("unrelated setting: " + what);
  expect_close(c, "S/P/R after changing " + what, b1, base, 1e-13 * std::abs(base) + tol);
  expect_close(c, "terms after changing " + what, b2, baset, 1e-13 * std::abs(baset) + tol2);
}
static void regular(Ctx &c) { run(c, false); }
static void vanishing(Ctx &c) { run(c, true); }
int main(int argc, char **argv) {
  Property p;
  p.id = "C24";
  p.rule = "random diagrams with random options, energies exact in binary; the second family shares labels and values so that pole energies vanish exactly; non-trivial: an "
           "option takes effect and the value is resolved to better than 1e-6";
  p.families = {{"regular", regular, 25000, 800000}, {"vanishing", vanishing, 25000, 800000}};
  p.assumptions = {"the oracle takes the symbolic solution from the library, whose correctness is the subject of C01-C03 and C20"};
  return pbt::main(p, argc, argv);
}

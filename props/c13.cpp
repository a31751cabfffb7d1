// C13: the prefactor is linear everywhere, nothing to integrate is a plain product,
// and the documented pieces of an evaluation compute what they stand for.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;
typedef std::complex<long double> cl;

static std::vector<int> ints(Src &s, int n, int m) { std::vector<int> v(n); for (int &x : v) x = s.sym(m); return v; }
static cl lin(const std::vector<int> &k, const std::vector<cd> &v) { cl r = 0; for (size_t i = 0; i < k.size(); i++) r += (long double)k[i] * cl(v[i]); return r; }

static void linear(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 2 : 0; g.max_lines = 7; g.ext_bose = c.s.chance(1, 4);
  PointOpt po; po.complex_energy = true; po.zero_energy = false;
  Case k = gen_case(c, g, po);
  int nint = k.d.nint;
  if (c.s.chance(1, 6)) { k.d.nint = 0; }
  AmiBase a;
  SPR s = make_spr(a, k.d);
  A::terms t = make_terms(a, k.d);
  Fact f, ft;
  if (s.R.back().size() < 150) { a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval); a.factorize_terms(t, ft.unique, ft.rref, ft.eval); }
  A::ami_vars e1 = k.p.vars(), e2 = e1;
  if (k.d.nint == 0) {
    c.label("no integrations");
    for (int q = 0; q < nint; q++) e1.frequency_[q] = e2.frequency_[q] = cd(0, (2 * c.s.sym(3) + 1) * M_PI / k.p.beta);
    cl den = 1;
    double md = 1;
    for (auto &l : k.d.lines) { cl x = lin(l.alpha, e1.frequency_) + lin(l.eps, e1.energy_); den *= x; md = std::min(md, (double)std::abs(x)); }
    if (md < 1e-3) c.discard("ill-conditioned point");
    k.r.value = cd(cl(1) / den);
    k.tol = 1e-11 * std::abs(k.r.value) / md;
  }
  e1.prefactor = 1;
  switch (c.s.draw(6)) {
  case 0: e2.prefactor = 0; break;
  case 1: e2.prefactor = -c.s.pos(0, 3); break;
  case 2: e2.prefactor = c.s.pos(0, 1000); break;
  case 3: e2.prefactor = -c.s.pos(0, 1000); break;
  case 4: e2.prefactor = c.s.sym(20); break;
  default: e2.prefactor = c.s.real(1e-6); break;
  }
  double pf = e2.prefactor, tol = k.tol * std::abs(pf) + 1e-250;
  c.note("prefactor " + fmt(pf));
  c.nontrivial(pf != 0 && k.tol < 1e-6 * std::abs(k.r.value));
  cd want = pf * k.r.value;
  expect_close(c, "S/P/R, prefactor 1", a.evaluate(s.parms, s.R, s.P, s.S, e1), k.r.value, k.tol);
  expect_close(c, "S/P/R", a.evaluate(s.parms, s.R, s.P, s.S, e2), want, tol);
  expect_close(c, "S/P/R, factorised", a.evaluate(s.parms, s.R, s.P, s.S, e2, f.unique, f.rref, f.eval), want, tol);
  expect_close(c, "terms", a.evaluate(s.parms, t, e2), want, tol);
  expect_close(c, "terms, factorised", a.evaluate(s.parms, t, e2, ft.unique, ft.rref, ft.eval), want, tol);
  if (s.R.back().size() < 60) expect_close(c, "on the fly", a.evaluate_otf(s.parms, s.R, s.P, s.S, e2), want, tol);
  if (t.size()) {
    A::term &x = t[c.s.draw(t.size())];
    cd v1 = a.evaluate_term(s.parms, x, e1), v2 = a.evaluate_term(s.parms, x, e2);
    expect_close(c, "single term", v2, pf * v1, 1e-13 * std::abs(pf * v1) + 1e-250);
  }
}
// products of arbitrary factors
static void product(Ctx &c) {
  Src &s = c.s;
  bool big = s.chance(1, 6);
  int ne = s.range(1, big ? s.chance(1, 6) ? 80 : 16 : 5), na = s.range(1, big ? 12 : 4), n = s.range(0, big ? 20 : 6);
  Point p;
  auto size = [&] { static const double m[] = {1e3, 1e-3, 50, 0.1, 1e6}; return s.chance(1, 8) ? m[s.draw(5)] : 1; };
  for (int i = 0; i < ne; i++) p.energy.push_back(size() * cd(s.real(4), s.chance(1, 3) ? s.real(2) : 0));
  for (int i = 0; i < na; i++) p.freq.push_back(size() * cd(s.real(4), s.chance(1, 6) ? 0 : s.real(4)));
  p.pref = s.chance(1, 3) ? s.real(5) * size() : 1;
  A::g_prod_t g;
  cl den = 1;
  double amp = 0;
  for (int i = 0; i < n; i++) {
    A::g_struct x(ints(s, ne, 3), ints(s, na, 2));
    if (s.chance(1, 3)) x.species_ = (int)s.draw(4); // a label, without effect on values
    cl d = lin(x.alpha_, p.freq) + lin(x.eps_, p.energy);
    double mag = 0, me = 0;
    for (int q = 0; q < ne; q++) me += std::abs((double)x.eps_[q]) * std::abs(p.energy[q]);
    for (int q = 0; q < na; q++) mag += std::abs((double)x.alpha_[q]) * std::abs(p.freq[q]);
    mag += me;
    if (std::abs(d) < 1e-6 * mag || mag == 0) c.discard("ill-conditioned point");
    amp += mag / (double)std::abs(d);
    den *= d;
    AmiBase a;
    A::ami_vars ev = p.vars();
    expect_close(c, "energy of a factor", a.get_energy_from_g(x, ev), cd(lin(x.eps_, p.energy)), 1e-14 * me + 1e-300);
    g.push_back(x);
  }
  c.note(image(g) + " " + dump(p));
  c.nontrivial(n >= 2);
  cd want = cd(cl(p.pref) / den);
  AmiBase a;
  A::ami_parms pr(0, 0);
  expect_close(c, "product of factors", a.eval_gprod(pr, g, p.vars()), want, 1e-14 * (10 + amp) * std::abs(want) + 1e-300);
}
// one pole: statistics by parity of its frequencies and by the graph type, order by its derivatives
static void pole(Ctx &c) {
  Src &s = c.s;
  bool big = s.chance(1, 6);
  int ne = s.range(1, big ? s.chance(1, 6) ? 80 : 16 : 4), na = s.range(2, big ? 12 : 5);
  Point p;
  static const double B[] = {1, 2, 0.5, 5, 20};
  p.beta = s.chance(1, 8) ? std::exp(s.real(5)) : B[s.draw(5)];
  double size = s.chance(1, 8) ? (s.coin() ? 40 : 0.02) : 1;
  for (int i = 0; i < ne; i++) p.energy.push_back(size * cd(s.real(3) + 1e-3, s.chance(1, 4) ? s.real(0.5) : 0));
  for (int i = 0; i < na; i++) p.freq.push_back(cd(s.real(4), s.real(4)));
  A::pole_struct x;
  x.index_ = s.range(0, na - (s.chance(1, 4) ? 1 : 2));
  x.eps_ = ints(s, ne, 2);
  x.alpha_ = ints(s, na, 1);
  x.alpha_[x.index_] = 0;
  x.der_ = (int)s.draw(5);
  x.multiplicity_ = x.der_ + 1;
  cd shift = 0;
  if (s.chance(1, 4)) { // spectral poles: energy displaced by a combination of frequencies
    x.x_alpha_ = ints(s, s.chance(1, 3) ? s.range(1, na) : na, 1);
    for (int i = 0; i < na; i++) p.freq[i] = cd(s.real(4), s.chance(1, 3) ? s.real(0.5) : 0);
    shift = cd(lin(x.x_alpha_, p.freq));
    c.label("spectral");
  }
  A::graph_type ty = (A::graph_type)s.draw(13);
  bool bose = ty == A::Pi_phuu || ty == A::Pi_phud || ty == A::Pi_ppuu || ty == A::Pi_ppud || ty == A::FORCE || ty == A::doubleocc;
  int par = 0;
  for (int i = 0; i < na; i++) if (x.alpha_[i] && !(bose && i == na - 1)) par ^= 1;
  AmiBase a;
  a.bosonic_external = bose && s.chance(1, 3);
  // the last frequency is bosonic and integrated as well
  double weight = 1;
  if (x.index_ == na - 1 && (ty == A::doubleocc || a.bosonic_external)) { par ^= 1; weight = -1; c.label("integrated boson"); }
  double sigma = par ? -1 : 1;
  cd E = cd(lin(x.eps_, p.energy));
  A::ami_vars ev = p.vars();
  c.note(image(x) + " type " + std::to_string((int)ty) + " " + dump(p));
  expect_close(c, "energy of a pole", a.get_energy_from_pole(x, ev), E, 1e-12);
  double ereg = s.chance(1, 3) ? s.pos(0, 0.5) : 0;
  A::ami_parms pr(1, ereg, ty);
  cd F = E + shift;
  if (ereg) {
    // pushed away from zero
    if (std::abs(F.real()) < 1e-9) c.discard("sign of the energy not resolved");
    F += F.real() < 0 ? -ereg : ereg;
    c.label("regulator");
  }
  if (std::abs(p.beta * F.real()) > 650) c.discard("beyond the range of the exponential");
  if (std::abs(1.0 + sigma * std::exp(-std::abs(p.beta * F.real())) * std::exp(cd(0, F.real() > 0 ? -1 : 1) * p.beta * F.imag())) < 0.02) c.discard("argument at the pole of the function");
  double scale;
  cd want = weight * ref_fermi_bose(x.der_, sigma, p.beta, F, &scale);
  double tol = 1e-10 * (scale + 1e-250) * (1 + std::abs(p.beta * F));
  c.label(sigma > 0 ? "fermi" : "bose");
  c.nontrivial(tol < 1e-4 * std::abs(want));
  cd got = a.fermi_pole(pr, x, ev);
  expect_close(c, "distribution of a pole", got, want, tol);
  // products and tables of poles
  A::pole_array_t list{x, x};
  list[1].der_ = 0;
  cd one = a.fermi_pole(pr, list[1], ev);
  expect_close(c, "product of distributions", a.eval_fprod(pr, list, ev), got * one, 1e-13 * std::abs(got * one) + 1e-280);
  A::Pi_t pi{{list[1]}, {x, list[1]}, {}};
  A::SorF_t tab = a.fermi(pr, pi, ev);
  c.check(tab.size() == 3 && tab[0].size() == 1 && tab[1].size() == 2 && tab[2].empty(), "table of distributions has the wrong shape");
  c.check(same_bits(tab[0][0], one) && same_bits(tab[1][0], got) && same_bits(tab[1][1], one), "table of distributions has the wrong entries");
}
// dot, cross and star
static void algebra(Ctx &c) {
  Src &s = c.s;
  AmiBase a;
  int n = s.range(1, s.chance(1, 10) ? 60 : 5);
  A::Si_t S1(1), S2(n);
  A::SorF_t F1(1), F2(n);
  auto val = [&] { return cd(s.real(2), s.real(2)); };
  for (int i = 0; i < n; i++) {
    S1[0].push_back(s.real(2)); F1[0].push_back(val());
    int m = (int)s.draw(s.chance(1, 10) ? 20 : 4);
    for (int j = 0; j < m; j++) { S2[i].push_back(s.real(2)); F2[i].push_back(val()); }
  }
  A::SorF_t L = a.dot(S1, F1), R = a.dot(S2, F2);
  c.check(L.size() == 1 && (int)L[0].size() == n && (int)R.size() == n, "dot: wrong shape");
  std::vector<cd> want;
  for (int i = 0; i < n; i++) {
    expect_close(c, "dot", L[0][i], S1[0][i] * F1[0][i], 1e-14 * std::abs(L[0][i]) + 1e-300);
    c.check(R[i].size() == F2[i].size(), "dot: wrong shape");
    for (size_t j = 0; j < F2[i].size(); j++) {
      expect_close(c, "dot", R[i][j], S2[i][j] * F2[i][j], 1e-14 * std::abs(R[i][j]) + 1e-300);
      want.push_back(S1[0][i] * F1[0][i] * S2[i][j] * F2[i][j]);
    }
  }
  A::SorF_t X = a.cross(L, R);
  c.check(X.size() == 1 && X[0].size() == want.size(), "cross: wrong shape");
  for (size_t i = 0; i < want.size(); i++) expect_close(c, "cross", X[0][i], want[i], 1e-13 * std::abs(want[i]) + 1e-300);
  // star: the sum over products
  A::Ri_t Ri;
  Point p;
  p.energy = {cd(s.real(3), 1.3), cd(s.real(3), 0.4)};
  p.freq = {val(), val() + cd(0, 7)};
  p.pref = s.real(3) + 0.2;
  A::ami_parms pr(2, 0);
  cd sum = 0;
  double mag = 0;
  for (size_t i = 0; i < want.size(); i++) {
    A::g_prod_t g;
    int m = (int)s.draw(3);
    for (int j = 0; j < m; j++) g.push_back(A::g_struct({1, s.sym(1)}, {0, s.coin() ? 1 : -1}));
    cd v = 1;
    for (auto &q : g) { cd d = cd(lin(q.eps_, p.energy) + lin(q.alpha_, p.freq)); if (std::abs(d) < 1e-2) c.discard("ill-conditioned point"); v /= d; }
    sum += p.pref * want[i] * v;
    mag += std::abs(p.pref * want[i] * v);
    Ri.push_back(g);
  }
  c.nontrivial(want.size() >= 2);
  expect_close(c, "star", a.star(pr, X, Ri, p.vars()), sum, 1e-11 * mag + 1e-300);
  Fact f;
  bool empty = false;
  for (auto &g : Ri) if (g.empty()) empty = true;
  if (!empty && !Ri.empty()) {
    a.factorize_Rn(Ri, f.unique, f.rref, f.eval);
    expect_close(c, "factorised star", a.optimized_star(pr, X, f.unique, f.rref, f.eval, p.vars()), sum, 1e-11 * mag + 1e-300);
  }
}
static bool regress_spectral(std::string &msg) {
  A a;
  A::pole_struct x({1}, {0, 0, 0});
  x.index_ = 0;
  x.x_alpha_ = {1, -1, 0};
  A::ami_parms pr(1, 0);
  A::ami_vars ev({0.25}, {cd(0.5, 0), cd(2, 0), cd(0, 0)}, 1.0);
  cd got = a.fermi_pole(pr, x, ev), want = 1.0 / (1.0 + std::exp(0.25 + 0.5 - 2));
  msg = "the distribution at a spectral pole is " + fmt(got) + " instead of " + fmt(want);
  return std::abs(got - want) > 1e-12;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C13";
  p.rule = "random problems with random prefactors (also 0, negative, no integrations) by every route; random products, poles (all 13 graph types, up to "
           "four derivatives, regulator) and tables; non-trivial: two or more factors / a resolved non-zero value";
  p.families = {{"linear", linear, 20000, 800000}, {"product", product, 60000, 2000000}, {"pole", pole, 60000, 2000000}, {"algebra", algebra, 40000, 1000000}};
  p.probes = {{"", "frequency shift of a spectral pole", regress_spectral}};
  p.assumptions = {"the reference implementation in harness/ref.cpp; long double arithmetic for the pieces"};
  return pbt::main(p, argc, argv);
}

// C16: the multiprecision build computes the same quantities (built with BOOST_MP).
#include "common.hpp"
#include <quadmath.h>
using namespace pbt;
typedef AmiBase A;
#ifndef BOOST_MP
#error this check needs the multiprecision build
#endif
typedef std::complex<boost::multiprecision::float128> cq;
typedef boost::multiprecision::float128 f128;

static cd down(const cq &z) { return cd(z.real().convert_to<double>(), z.imag().convert_to<double>()); }

static void run(Ctx &c, const GenOpt &g, PointOpt po) {
  po.zero_energy = false;
  po.pref = true;
  Case k = gen_case(c, g, po);
  c.nontrivial(sharp(k) && k.p.pref != 0);
  AmiBase a;
  SPR s = make_spr(a, k.d);
  A::terms t = make_terms(a, k.d);
  A::ami_vars ev = k.p.vars();
  double pf = k.p.pref, tol = k.tol * std::abs(pf) + 1e-250;
  cd want = pf * k.r.value;
  expect_close(c, "S/P/R", a.evaluate(s.parms, s.R, s.P, s.S, ev), want, tol);
  expect_close(c, "terms", a.evaluate(s.parms, t, ev), want, tol);
  bool flag = a.overflow_detected;
  c.label(flag ? "flag set" : "flag clear");
  cd sum = 0;
  for (auto &x : t) {
    cd v = a.evaluate_term(s.parms, x, ev), w = down(a.evaluate_term_mp(s.parms, x, ev));
    if (!(std::abs(v - w) <= 1e-12 * std::abs(v) * 100 + 1e-250)) {
      // rounding of the denominators in double may be amplified
      if (!(std::abs(v - w) <= tol)) c.fail(diff_msg("one term in double and in multiprecision", w, v, tol));
    }
    sum += w;
  }
  expect_close(c, "sum of the multiprecision terms", sum, want, tol);
  if (s.R.back().size() < 120) {
    Fact f, ft;
    a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval);
    a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
    expect_close(c, "S/P/R, factorised", a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval), want, tol);
    expect_close(c, "terms, factorised", a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval), want, tol);
    bool verbose = c.s.chance(1, 20);
    if (verbose) { std::cout.setstate(std::ios::failbit); a.verbose = true; expect_close(c, "terms, factorised, verbose", a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval), want, tol); expect_close(c, "terms, verbose", a.evaluate(s.parms, t, ev), want, tol); std::cout.clear(); a.verbose = false; }
  }
  if (s.R.back().size() < 40) expect_close(c, "on the fly", a.evaluate_otf(s.parms, s.R, s.P, s.S, ev), want, tol);
}
static void simple(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 0; PointOpt p; run(c, g, p); }
static void repeated(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true; PointOpt p; p.complex_energy = true; run(c, g, p); }
static void bosonic(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 3; g.ext_bose = true; PointOpt p; run(c, g, p); }

// the product of factors in quadruple precision: 1/prod (sum alpha w + sum eps e)
static void product(Ctx &c) {
  Src &s = c.s;
  int ne = s.range(1, 5), na = s.range(1, 4), n = s.range(0, 6);
  Point p;
  bool close = s.chance(1, 2); // nearly cancelling denominators: the point of multiprecision
  for (int i = 0; i < ne; i++) p.energy.push_back(cd(s.real(4), s.chance(1, 3) ? s.real(2) : 0));
  for (int i = 0; i < na; i++) p.freq.push_back(cd(s.real(4), s.real(4)));
  if (close && ne > 1) { p.energy[1] = p.energy[0] + std::ldexp(1.0 + s.pos(0, 1), -30 - s.range(0, 18)); c.label("cancelling denominators"); }
  p.pref = s.chance(1, 2) ? s.real(5) : 1;
  A::g_prod_t g;
  f128 dr = 1, di = 0;
  for (int i = 0; i < n; i++) {
    A::g_struct x{A::epsilon_t(ne), A::alpha_t(na)};
    for (int &v : x.eps_) v = s.sym(1);
    for (int &v : x.alpha_) v = s.sym(1);
    if (close && ne > 1 && s.coin()) { for (int &v : x.alpha_) v = 0; for (int &v : x.eps_) v = 0; x.eps_[0] = 1; x.eps_[1] = -1; }
    g.push_back(x);
    f128 re = 0, im = 0;
    for (int q = 0; q < na; q++) { re += f128(x.alpha_[q]) * f128(p.freq[q].real()); im += f128(x.alpha_[q]) * f128(p.freq[q].imag()); }
    for (int q = 0; q < ne; q++) { re += f128(x.eps_[q]) * f128(p.energy[q].real()); im += f128(x.eps_[q]) * f128(p.energy[q].imag()); }
    if (re == 0 && im == 0) c.discard("vanishing denominator");
    f128 a = dr * re - di * im, b = dr * im + di * re;
    dr = a; di = b;
  }
  c.note(image(g) + " " + dump(p));
  c.nontrivial(n >= 1);
  f128 m = dr * dr + di * di, wr = f128(p.pref) * dr / m, wi = -f128(p.pref) * di / m;
  AmiBase a;
  A::ami_parms pr(0, 0);
  cq got = a.eval_gprod_mp(pr, g, p.vars());
  f128 err = sqrt((got.real() - wr) * (got.real() - wr) + (got.imag() - wi) * (got.imag() - wi)), size = sqrt(wr * wr + wi * wi);
  c.check(err <= size * f128(1e-30), "product of factors: relative error " + fmt((err / (size + f128(1e-300))).convert_to<double>()) + " in multiprecision, got " + fmt(down(got)) + " expected " + fmt(cd(wr.convert_to<double>(), wi.convert_to<double>())));
}
// terms are accumulated in multiprecision: equal terms of opposite sign cancel
// down to the precision of the products, whatever lies in between
static void cancel(Ctx &c) {
  Src &s = c.s;
  int n = s.range(1, 6);
  A::terms t;
  std::vector<cd> e, w{cd(0, 0), cd(s.real(3), s.pos(0.1, 2))};
  for (int i = 0; i < n; i++) e.push_back(cd(s.real(3) + 0.01, 0));
  // small remainder that must survive
  A::g_struct small{A::epsilon_t(n), A::alpha_t{0, 1}};
  t.push_back(A::term(std::ldexp(1.0, -50 - s.range(0, 10)), {}, {small}));
  double keep = t[0].sign;
  for (int i = 0; i < n; i++) {
    A::g_struct x{A::epsilon_t(n), A::alpha_t{0, 1}};
    x.eps_[i] = 1;
    double sg = 1 + s.draw(1000) * 0.37;
    t.insert(t.begin() + s.draw(t.size() + 1), A::term(sg, {}, {x}));
    t.insert(t.begin() + s.draw(t.size() + 1), A::term(-sg, {}, {x}));
  }
  c.note("pairs " + std::to_string(n) + " energies " + fmt(e) + " frequency " + fmt(w[1]));
  c.nontrivial(n >= 2);
  AmiBase a;
  A::ami_parms pr(0, 0);
  A::ami_vars ev(e, w, 1.0, 1.0);
  cd want = keep / w[1];
  expect_close(c, "cancelling terms", a.evaluate(pr, t, ev), want, 1e-10 * std::abs(want));
  Fact f;
  a.factorize_terms(t, f.unique, f.rref, f.eval);
  expect_close(c, "cancelling terms, factorised", a.evaluate(pr, t, ev, f.unique, f.rref, f.eval), want, 1e-10 * std::abs(want));
}

// The accumulation itself: distributions are evaluated in double, everything
// after that in quadruple precision, so the result is exact up to the rounding
// of the distributions however much the contributions cancel.
struct Q { f128 re, im; };
static Q mul(Q a, Q b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static Q up(cd z) { return {f128(z.real()), f128(z.imag())}; }
static f128 mag(Q a) { return sqrt(a.re * a.re + a.im * a.im); }
static Q prod_q(Ctx &c, const A::g_prod_t &g, const A::ami_vars &v) {
  Q d{1, 0};
  for (auto &x : g) {
    Q e{0, 0};
    for (auto *k : {&x.alpha_, &x.eps_}) for (int n : *k) if (std::abs(n) == 3 || std::abs(n) > 4) c.discard("a coefficient that rounds in double");
    for (size_t q = 0; q < x.alpha_.size(); q++) { e.re += f128(x.alpha_[q]) * f128(v.frequency_[q].real()); e.im += f128(x.alpha_[q]) * f128(v.frequency_[q].imag()); }
    for (size_t q = 0; q < x.eps_.size(); q++) { e.re += f128(x.eps_[q]) * f128(v.energy_[q].real()); e.im += f128(x.eps_[q]) * f128(v.energy_[q].imag()); }
    if (e.re == 0 && e.im == 0) c.discard("vanishing denominator");
    d = mul(d, e);
  }
  f128 m = d.re * d.re + d.im * d.im;
  return {d.re / m, -d.im / m};
}
static void accumulate(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = s.chance(1, 2) ? 2 : 0; g.max_lines = 7; g.flip_dup = true; g.int_eps = false; g.ext_bose = s.chance(1, 4); // coefficients times values exact in double
  Diagram d = gen_shape(s, g);
  PointOpt po; po.pref = true; po.zero_energy = false; po.complex_energy = true; po.betas = {1, 2, 0.5, 5};
  Point p = gen_point(s, d, po);
  // energies close to each other: contributions that cancel
  int close = s.range(0, 40);
  for (size_t i = 1; i < p.energy.size(); i++)
    if (s.chance(3, 4)) p.energy[i] = p.energy[s.draw(i)] * (s.chance(1, 8) ? -1.0 : 1.0) + std::ldexp(s.real(1) + 0.01, -close);
  c.note(dump(d) + " " + dump(p));
  AmiBase a;
  a.drop_matsubara_poles = !d.ext_bose;
  SPR sp = make_spr(a, d);
  A::terms t = make_terms(a, d);
  if (t.empty() || t.size() > 150) c.discard("size of the solution");
  A::ami_vars ev = p.vars();
  f128 pf = p.pref;
  Q sum{0, 0};
  f128 scale = 0;
  for (auto &x : t) {
    Q v = mul(up(a.eval_fprod(sp.parms, x.p_list, ev)), prod_q(c, x.g_list, ev));
    v.re *= f128(x.sign) * pf; v.im *= f128(x.sign) * pf;
    sum.re += v.re; sum.im += v.im; scale += mag(v);
  }
  double want = mag(sum).convert_to<double>(), sc = scale.convert_to<double>();
  if (!(sc < 1e200)) c.discard("non-finite contribution");
  double lost = want > 0 ? sc / want : 1e300;
  c.label(lost > 1e12 ? "cancellation beyond 1e12" : lost > 1e6 ? "cancellation beyond 1e6" : "little cancellation");
  c.nontrivial(lost > 1e3 && lost < 1e20);
  auto cmp = [&](const std::string &what, cd got, Q ref, double extra) {
    double e = mag(Q{f128(got.real()) - ref.re, f128(got.imag()) - ref.im}).convert_to<double>();
    double r = mag(ref).convert_to<double>();
    if (!(e <= 1e-14 * r + 1e-26 * sc + extra + 1e-290)) c.fail(what + ": " + fmt(got) + " differs by " + fmt(e) + " from the sum of its contributions " + fmt(r) + " (they sum to " + fmt(sc) + " in magnitude)");
  };
  cmp("terms", a.evaluate(sp.parms, t, ev), sum, 0);
  Fact ft, f;
  a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
  bool bare = false; // a term without factors
  for (auto &x : t) if (x.g_list.empty()) bare = true;
  if (!bare) { // a coefficient is computed in double, the coefficients of one product are added in quadruple precision
    Q w{0, 0}; f128 slack = 0;
    for (size_t i = 0; i < ft.eval.size(); i++) {
      Q k{0, 0}; f128 km = 0; bool clean = true;
      for (auto &r : ft.eval[i]) { cd v = a.eval_fprod(sp.parms, t[r.first].p_list, ev); f128 q = f128(t[r.first].sign) * f128(r.second); k.re += q * f128(v.real()); k.im += q * f128(v.imag()); km += abs(q) * f128(std::abs(v)); int ex; if (std::abs(std::frexp(t[r.first].sign, &ex)) != 0.5 || std::abs(r.second) != 1) clean = false; }
      A::g_prod_t pr;
      for (auto &r : ft.rref[i]) pr.push_back(ft.unique[r.first]);
      Q gp = prod_q(c, pr, ev);
      Q v = mul(k, gp);
      w.re += v.re * pf; w.im += v.im * pf;
      // the product with a sign that is not a power of two is rounded
      if (!clean) slack += km * mag(gp) * abs(pf);
    }
    cmp("terms, factorised", a.evaluate(sp.parms, t, ev, ft.unique, ft.rref, ft.eval), w, 4e-16 * slack.convert_to<double>());
  }
  a.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
  bool empty = false;
  for (auto &r : sp.R.back()) if (r.empty()) empty = true;
  if (!empty) { // from the coefficients on, which are computed in double
    A::SorF_t K = a.dot(sp.S[0], a.fermi(sp.parms, sp.P[0], ev));
    for (int i = 1; i < sp.parms.N_INT_; i++) K = a.cross(K, a.dot(sp.S[i], a.fermi(sp.parms, sp.P[i], ev)));
    Q w{0, 0};
    for (size_t i = 0; i < K[0].size(); i++) { Q v = mul(up(K[0][i]), prod_q(c, sp.R.back()[i], ev)); w.re += v.re * pf; w.im += v.im * pf; }
    cmp("S/P/R, factorised", a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval), w, 0);
    cmp("S/P/R, optimized_star", a.optimized_star(sp.parms, K, f.unique, f.rref, f.eval, ev), w, 0);
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C16";
  p.rule = "the library built with BOOST_MP: random products in all routes against the reference, single terms against their double counterparts, products of factors "
           "against quadruple arithmetic, cancelling terms, and the accumulation of random solutions with close energies against quadruple arithmetic; non-trivial: value resolved to better than 1e-6 and prefactor not zero";
  p.families = {{"simple", simple, 12000, 500000}, {"repeated", repeated, 12000, 500000}, {"bosonic-external", bosonic, 6000, 200000}, {"product", product, 60000, 2000000}, {"cancel", cancel, 20000, 500000}, {"accumulate", accumulate, 8000, 400000}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp"};
  return pbt::main(p, argc, argv);
}

// C23: derivative_opt turns a factorised solution into its derivative with respect
// to the last external frequency. The oracle differentiates the exact sum by
// Cauchy's formula on a circle inside the domain of analyticity.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;

static const int N = 32;
// k-th derivative (k = 1, 2) with respect to the last frequency; tol receives the
// uncertainty of a double evaluation of the same expression
static cd cauchy(Ctx &c, const Diagram &d, const Point &p, const RefOut &r0, int k, double &tol) {
  double rho = r0.min_den / 8; // factors contain the frequency at most twice
  if (rho > 1) rho = 1;
  cd sum = 0;
  double scale = r0.scale, noise = r0.noise;
  for (int j = 0; j < N; j++) {
    cd u = std::polar(1.0, 2 * M_PI * j / N);
    Point q = p;
    q.freq.back() += rho * u;
    RefOut r = ref_sum(ref_in(d, q));
    if (!r.ok) c.discard(r.why);
    sum += r.value * std::pow(u, -k);
    scale = std::max(scale, r.scale);
    noise = std::max(noise, r.noise);
  }
  sum /= (double)N * std::pow(rho, k);
  if (k == 2) sum *= 2.0;
  // every factor differentiated contributes at most 1/min_den; the reference is inexact on the circle as well
  tol = (1e-10 * scale + noise) * std::pow(std::max((double)d.lines.size() / r0.min_den, 1 / rho), k);
  return sum;
}
static bool alive(const SPR &s) { // derivative_opt works on factors that are left
  if (s.R.back().empty()) return false;
  for (auto &g : s.R.back()) if (g.empty()) return false;
  return true;
}
static void derivative(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8; g.max_int = 3; g.max_lines = c.thorough ? 8 : 6; g.multi = 1; g.flip_dup = true; g.ext_bose = s.chance(1, 4);
  PointOpt po; po.pref = true;
  Case k = gen_case(c, g, po, 1e-10, 2e-2);
  if (k.r.confluent > 3 || k.r.paths > 400) c.discard("too many contributions");
  int order = s.chance(1, 4) ? 2 : 1;
  A a;
  SPR sp = make_spr(a, k.d);
  if (!alive(sp)) c.discard("no propagator left");
  A::terms t = make_terms(a, k.d);
  double tol;
  cd want = cauchy(c, k.d, k.p, k.r, order, tol) * k.p.pref;
  tol = tol * std::abs(k.p.pref) + 1e-250;
  c.label("derivative " + std::to_string(order));
  bool dep = false;
  for (auto &x : sp.R.back()) for (auto &f : x) if (f.alpha_.back()) dep = true;
  c.label(dep ? "depends on the frequency" : "independent of the frequency");
  c.nontrivial(dep && tol < 1e-5 * std::abs(want));
  A::ami_vars ev = k.p.vars();
  for (int form = 0; form < 2; form++) {
    Fact f;
    if (form) a.factorize_terms(t, f.unique, f.rref, f.eval);
    else a.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
    std::string u = image(f.unique);
    for (int q = 0; q < order; q++) a.derivative_opt(f.unique, f.rref, f.eval);
    c.check(image(f.unique) == u, "derivative_opt changed the distinct factors");
    c.check(f.rref.size() == f.eval.size(), "derivative_opt: lists of different length");
    cd got = form ? a.evaluate(sp.parms, t, ev, f.unique, f.rref, f.eval) : a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval);
    expect_close(c, std::string(form ? "terms" : "S/P/R") + ", derivative " + std::to_string(order), got, want, tol);
  }
}
// products without any integration, where the derivative is elementary
static void direct(Ctx &c) {
  Src &s = c.s;
  bool large = s.chance(1, 6); // longer products, more of them, more labels
  int na = s.range(1, 3), ne = s.range(1, 3), n = s.range(1, 5), m = s.range(1, 4), longest = 4;
  if (large) {
    if (s.coin()) na = s.range(1, 40);
    if (s.coin()) ne = s.range(1, 70);
    n = s.range(1, 12); m = s.range(1, 24); longest = s.range(4, 12);
    c.label("large");
  }
  A::Ri_t Rn;
  A::g_prod_t pool;
  for (int i = 0; i < n; i++) {
    A::g_struct x{A::epsilon_t(ne), A::alpha_t(na)};
    for (int &v : x.eps_) v = s.sym(2);
    for (int &v : x.alpha_) v = s.sym(1);
    bool z = true;
    for (int v : x.eps_) if (v) z = false;
    for (int v : x.alpha_) if (v) z = false;
    if (z) x.eps_[0] = 1;
    pool.push_back(x);
  }
  for (int i = 0; i < m; i++) {
    A::g_prod_t x;
    for (int j = 0, q = s.range(1, longest); j < q; j++) {
      A::g_struct f = pool[s.draw(n)];
      if (s.chance(1, 3)) { for (int &v : f.eps_) v = -v; for (int &v : f.alpha_) v = -v; }
      x.push_back(f);
    }
    Rn.push_back(x);
  }
  A::ami_vars ev;
  for (int q = 0; q < ne; q++) ev.energy_.push_back(cd(s.real(3) + 0.01 * std::sin(q + 1.), 0));
  for (int q = 0; q < na; q++) ev.frequency_.push_back(cd(s.real(3), s.pos(0.3, 3)));
  ev.BETA_ = 1; ev.prefactor = s.coin() ? 1 : s.real(5);
  c.note(image(Rn) + " " + image(ev));
  // weights of the products
  A::SorF_t K(1);
  for (int i = 0; i < m; i++) K[0].push_back(cd(s.real(2), s.real(2)));
  cd want = 0;
  double scale = 0;
  for (int i = 0; i < m; i++) {
    cd v = 1, l = 0;
    double la = 0;
    for (auto &f : Rn[i]) {
      cd den = 0;
      for (int q = 0; q < ne; q++) den += (double)f.eps_[q] * ev.energy_[q];
      for (int q = 0; q < na; q++) den += (double)f.alpha_[q] * ev.frequency_[q];
      if (std::abs(den) < 1e-2) c.discard("singular point");
      v /= den;
      l -= (double)f.alpha_.back() / den;
      la += 1 / std::abs(den);
    }
    want += K[0][i] * v * l * ev.prefactor;
    scale += std::abs(K[0][i] * v * ev.prefactor) * la;
  }
  A a;
  Fact f;
  a.factorize_Rn(Rn, f.unique, f.rref, f.eval);
  a.derivative_opt(f.unique, f.rref, f.eval);
  c.nontrivial(std::abs(want) > 1e-6 * scale && m > 1);
  A::ami_parms pr(1, 0);
  expect_close(c, "derivative of a sum of products", a.optimized_star(pr, K, f.unique, f.rref, f.eval, ev), want, 1e-11 * scale + 1e-250);
}
static cd derived(std::vector<A::g_struct> g, int nint, std::vector<cd> freq) {
  A a;
  A::ami_parms pr(nint, 0);
  A::R_t R; A::P_t P; A::S_t S;
  a.construct(pr, g, R, P, S);
  Fact f;
  a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
  a.derivative_opt(f.unique, f.rref, f.eval);
  A::ami_vars ev({0.4, -0.7}, freq, 1.5, 1);
  return a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval);
}
static bool no_external(std::string &msg) {
  cd v = derived({A::g_struct({1, 0}, {1, 0}), A::g_struct({0, 1}, {1, 0})}, 1, {0, cd(0, 2)});
  msg = "derivative of an expression without external frequency: " + fmt(v);
  return std::abs(v) > 1e-12;
}
static bool no_propagator(std::string &msg) {
  cd v = derived({A::g_struct({1, 0}, {1, 0})}, 1, {0, cd(0, 2)});
  msg = "derivative of a single summed propagator: " + fmt(v) + ", expected 0";
  return std::abs(v) > 1e-12;
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C23";
  p.rule = "random diagrams up to three integrations, factorised in both forms and differentiated once or twice; non-trivial: depends on the frequency and "
           "resolved to better than 1e-5; and random sums of products against the elementary derivative; non-trivial: at least two products, no cancellation";
  p.families = {{"derivative", derivative, 12000, 300000}, {"direct", direct, 100000, 3000000}};
  p.probes = {{"", "no external frequency", no_external}, {"no-propagator-left", "no propagator is left after the summation", no_propagator}};
  p.assumptions = {"the derivative is that of the value as a function of the external frequency with the statistical factors already replaced, which is what the solution encodes"};
  return pbt::main(p, argc, argv);
}

// C14: an evaluation that overflows or divides by zero never looks like a good one.
#include "common.hpp"
#include <functional>
#include <limits>
using namespace pbt;
typedef AmiBase A;

struct All {
  SPR s; A::terms t; Fact f, ft;
  bool fact = false, otf = false;
};
struct Route { const char *name; size_t pieces; std::function<cd(A &, A::ami_vars &)> run; };

static All build(const Diagram &d) {
  AmiBase a;
  All x;
  x.s = make_spr(a, d);
  x.t = make_terms(a, d);
  x.fact = x.s.R.back().size() < 120;
  if (x.fact) { a.factorize_Rn(x.s.R.back(), x.f.unique, x.f.rref, x.f.eval); a.factorize_terms(x.t, x.ft.unique, x.ft.rref, x.ft.eval); }
  x.otf = x.s.R.back().size() < 40;
  return x;
}
static std::vector<Route> routes(All &x) {
  std::vector<Route> r;
  size_t n = std::max<size_t>(1, x.s.R.back().size());
  r.push_back({"S/P/R", n, [&x](A &a, A::ami_vars &e) { return a.evaluate(x.s.parms, x.s.R, x.s.P, x.s.S, e); }});
  r.push_back({"terms", n, [&x](A &a, A::ami_vars &e) { return a.evaluate(x.s.parms, x.t, e); }});
  if (x.fact) {
    r.push_back({"S/P/R, factorised", n, [&x](A &a, A::ami_vars &e) { return a.evaluate(x.s.parms, x.s.R, x.s.P, x.s.S, e, x.f.unique, x.f.rref, x.f.eval); }});
    r.push_back({"terms, factorised", n, [&x](A &a, A::ami_vars &e) { return a.evaluate(x.s.parms, x.t, e, x.ft.unique, x.ft.rref, x.ft.eval); }});
  }
  if (x.otf) r.push_back({"on the fly", 0, [&x](A &a, A::ami_vars &e) { return a.evaluate_otf(x.s.parms, x.s.R, x.s.P, x.s.S, e); }});
  return r;
}
static double big(cd z) { return std::max(std::abs(z.real()), std::abs(z.imag())); }

static Diagram pick(Ctx &c, GenOpt &g) {
  g.max_int = 3; g.multi = c.s.chance(1, 3) ? 2 : 0; g.max_lines = 7; g.ext_bose = c.s.chance(1, 4);
  Diagram d = gen_shape(c.s, g);
  if (c.s.chance(1, 8)) { d.nint = 0; c.label("no integrations"); }
  return d;
}

// points where something vanishes or explodes
static void singular(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8;
  Diagram d = pick(c, g);
  All x = build(d);
  PointOpt po;
  Point p = gen_point(s, d, po), good = p;
  int kind = (int)s.draw(6);
  switch (kind) {
  case 0: case 1: // coinciding energies, vanishing sums of energies
    for (auto &e : p.energy) e = s.sym(2) * 0.5;
    c.label("coinciding energies");
    if (kind == 1) for (int q = d.nint; q < d.nfreq; q++) p.freq[q] = s.sym(2) * 0.5;
    break;
  case 2: // one extreme energy
    p.energy[s.draw(p.energy.size())] = std::vector<double>{1e200, -1e200, 1e308, 1e-200, 5e15, -3e17}[s.draw(6)];
    c.label("extreme energy");
    break;
  case 3: // not a number or infinite
    { double v = std::vector<double>{NAN, INFINITY, -INFINITY}[s.draw(3)];
      if (s.coin() || d.nfreq == d.nint) p.energy[s.draw(p.energy.size())] = s.coin() ? cd(v, 0) : cd(0, v);
      else p.freq[d.nint + s.draw(d.nfreq - d.nint)] = s.coin() ? cd(v, 0) : cd(0, v);
      c.label("non-finite input"); }
    break;
  case 4: // energies closer than the precision
    { cd b = p.energy[0]; for (auto &e : p.energy) e = b + s.sym(3) * std::vector<double>{1e-18, 1e-16, 1e-14, 1e-12}[s.draw(4)]; c.label("nearly coinciding energies"); }
    break;
  default: // huge prefactor
    p.pref = std::vector<double>{1e300, -1e308, 1e17, 1e15, INFINITY}[s.draw(5)]; c.label("huge prefactor");
  }
  if (s.chance(1, 6)) p.beta = std::vector<double>{1e-300, 1e4, 1e6, 1e300}[s.draw(4)];
  c.note(dump(d) + " " + dump(p));
  A::ami_vars bad = p.vars();
  double cut = s.chance(1, 3) ? std::vector<double>{1, 1e3, 1e8}[s.draw(3)] : 1e15;
  c.note("cutoff " + fmt(cut));
  A kept;
  kept.precision_cutoff = cut;
  for (auto &r : routes(x)) {
    if (!r.pieces && kind == 3) continue;
    A fresh;
    fresh.precision_cutoff = cut;
    cd v = r.run(fresh, bad);
    bool flag = fresh.overflow_detected;
    std::string w = r.name;
    if (!finite(v)) { c.nontrivial(); c.label("non-finite result"); c.check(flag, w + ": returns " + fmt(v) + " without setting the overflow flag"); }
    else if (r.pieces && big(v) > cut * r.pieces * 1.01) { c.nontrivial(); c.label("result above the cutoff"); c.check(flag, w + ": returns " + fmt(v) + " (" + std::to_string(r.pieces) + " contributions, cutoff " + fmt(cut) + ") without setting the overflow flag"); }
    c.label(flag ? "flag set" : "flag clear");
    kept.overflow_detected = s.coin();
    r.run(kept, bad);
    c.check(kept.overflow_detected == flag, w + ": the flag of an object used before differs from that of a fresh one");
  }
  for (auto &t : x.t) {
    A fresh;
    fresh.precision_cutoff = cut;
    cd v = fresh.evaluate_term(x.s.parms, t, bad);
    if (!finite(v) || big(v) > cut) { c.nontrivial(); c.check(fresh.overflow_detected, "single term: returns " + fmt(v) + " without setting the overflow flag"); }
  }
}
// regular points: the flag is clear, whatever happened before, and follows the cutoff
static void regular(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8;
  g.max_int = 3; g.multi = s.chance(1, 3) ? 2 : 0; g.max_lines = 7; g.ext_bose = s.chance(1, 4);
  PointOpt po; po.zero_energy = false;
  po.pref = true;
  po.ext_kind = 1 + (int)s.draw(2);
  Case k = gen_case(c, g, po);
  if (s.chance(1, 8)) { k.d.nint = 0; k.p.freq[0] = cd(0.37, 1.9); }
  All x = build(k.d);
  A::ami_vars ev = k.p.vars(), bad = ev;
  std::vector<int> used; // energies that occur
  for (int i = 0; i < k.d.neps; i++) for (auto &l : k.d.lines) if (l.eps[i]) { used.push_back(i); break; }
  if (used.empty()) c.discard("no energy occurs");
  bad.energy_[s.pick(used)] = NAN;
  // contributions, computed from the pieces by an object that has no cutoff
  A probe;
  probe.precision_cutoff = std::numeric_limits<double>::infinity();
  double lo = 1e300, hi = 0, piece = 0; // piece: also when the prefactor vanishes
  A::ami_vars one = ev;
  one.prefactor = 1;
  bool special = false;
  auto whole = [&](cd v) { double x = std::abs(v.real()); if (x >= 2 && std::floor(x) == x) special = true; };
  for (auto &t : x.t) {
    cd v = probe.evaluate_term(x.s.parms, t, ev);
    lo = std::min(lo, big(v)); hi = std::max(hi, big(v));
    piece = std::max({piece, big(probe.evaluate_term(x.s.parms, t, one)), big(probe.eval_fprod(x.s.parms, t.p_list, one))});
    whole(probe.eval_gprod(x.s.parms, t.g_list, ev));
    if (!finite(v)) c.discard("overflow");
  }
  for (auto &r : x.s.R.back()) whole(probe.eval_gprod(x.s.parms, r, ev));
  if (x.t.empty()) c.discard("no terms");
  if (special) c.discard("a product with integral real part (known finding)");
  c.nontrivial(hi > 0);
  double room = 1e6 * (1 + std::abs(k.p.pref)) * (1 + 1 / (std::abs(k.p.pref) + 1e-3));
  for (auto &r : routes(x)) {
    A a;
    a.overflow_detected = s.coin();
    if (s.coin()) { A::ami_vars b = bad; if (r.pieces) { r.run(a, b); c.check(a.overflow_detected, std::string(r.name) + ": a point with an energy that is not a number did not set the overflow flag"); } }
    r.run(a, ev);
    if (std::max(hi, piece) * room < 1e15) c.check(!a.overflow_detected, std::string(r.name) + ": overflow flag set at a regular point (contributions up to " + fmt(hi) + ")");
  }
  // the terms route: set exactly when a contribution exceeds the cutoff
  if (hi > 1e-200) {
    A a;
    a.precision_cutoff = hi * 0.9;
    a.evaluate(x.s.parms, x.t, ev);
    c.check(a.overflow_detected, "terms: a contribution of size " + fmt(hi) + " passed a cutoff of " + fmt(hi * 0.9));
    a.evaluate(x.s.parms, x.s.R, x.s.P, x.s.S, ev);
    c.check(a.overflow_detected, "S/P/R: a contribution of size " + fmt(hi) + " passed a cutoff of " + fmt(hi * 0.9));
  }
}
// the derivatives of the occupation functions: the flag follows the size of the value, and is never cleared
static void occupation(Ctx &c) {
  Src &s = c.s;
  int m = 1 + (int)s.draw(4);
  double sigma = s.coin() ? 1 : -1, beta = std::vector<double>{0.5, 1, 4, 10}[s.draw(4)];
  cd E(s.real(4), s.coin() ? s.real(4) : 0);
  if (s.chance(1, 3)) { // near a pole of the function
    double y = M_PI * (2 * s.sym(2) + (sigma > 0 ? 1 : 0)) / beta;
    E = cd(0, y) + cd(s.sym(3), s.sym(3)) * std::pow(10.0, -(double)s.draw(8));
    c.label("near a pole");
  }
  A a;
  a.precision_cutoff = 1.37 * std::pow(10.0, (double)s.draw(18) - 2);
  bool before = a.overflow_detected = s.chance(1, 4);
  cd v = a.fermi_bose(m, sigma, beta, E);
  bool over = big(v) > a.precision_cutoff;
  c.note("m=" + std::to_string(m) + " sigma=" + fmt(sigma) + " beta=" + fmt(beta) + " E=" + fmt(E) + " cutoff=" + fmt(a.precision_cutoff) + " flag before=" + std::to_string(before));
  if (!finite(v) && !over) c.discard("not a number: flagged where it is used");
  c.nontrivial(over || big(v) > 1e-3 * a.precision_cutoff);
  c.label(over ? "above the cutoff" : "below the cutoff");
  c.check(a.overflow_detected == (before || over), "derivative of the occupation is " + fmt(v) + ", cutoff " + fmt(a.precision_cutoff) + ", overflow flag " + (a.overflow_detected ? "set" : "clear"));
}
// a product equal to one or purely imaginary is no overflow
static bool regress_whole(std::string &msg) {
  A a;
  A::ami_parms pr(1, 0);
  A::ami_vars ev({0.5, 0}, {0, cd(0, M_PI)}, 1.0);
  msg = "flag set at regular points:";
  bool bad = false;
  for (int n = 1; n <= 2; n++) {
    A::g_prod_t R0{A::g_struct({1, 0}, {1, 0})};
    if (n == 2) R0.push_back(A::g_struct({0, 1}, {0, 1}));
    A::R_t R; A::P_t P; A::S_t S; A::terms T;
    a.construct(pr, R0, R, P, S);
    a.construct(pr, R0, T);
    a.evaluate(pr, R, P, S, ev);
    if (a.overflow_detected) { bad = true; msg += " S/P/R with " + std::to_string(n) + " lines"; }
    a.evaluate(pr, T, ev);
    if (a.overflow_detected) { bad = true; msg += " terms with " + std::to_string(n) + " lines"; }
  }
  return bad;
}
// a product equal to two is taken for an overflow
static bool integral_product(std::string &msg) {
  A a;
  A::ami_parms pr(1, 0);
  A::ami_vars ev({0.5, 0.5}, {0, 0}, 1.0);
  A::g_prod_t R0{A::g_struct({1, 0}, {1, 0}), A::g_struct({0, 1}, {0, 1})};
  A::R_t R; A::P_t P; A::S_t S;
  a.construct(pr, R0, R, P, S);
  cd v = a.evaluate(pr, R, P, S, ev);
  msg = "flag " + std::string(a.overflow_detected ? "set" : "clear") + " at a regular point, value " + fmt(v);
  return a.overflow_detected;
}
static bool regress(std::string &msg) {
  typedef A::g_struct G;
  A::g_prod_t R0{G({1, 0}, {1, 0}), G({0, 1}, {1, 1})};
  A a;
  A::ami_parms pr(1, 0), p0(0, 0);
  A::R_t R; A::P_t P; A::S_t S; A::terms T;
  a.construct(pr, R0, R, P, S);
  a.construct(pr, R0, T);
  Fact f, g;
  a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
  a.factorize_terms(T, g.unique, g.rref, g.eval);
  A::ami_vars ev({0.5, 0.5}, {0, 0}, 1.0);
  std::string bad;
  auto look = [&](const char *w, cd v) { if (!finite(v) && !a.overflow_detected) bad += std::string(" ") + w; };
  look("S/P/R", a.evaluate(pr, R, P, S, ev));
  look("factorised", a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval));
  look("terms", a.evaluate(pr, T, ev));
  look("factorised-terms", a.evaluate(pr, T, ev, g.unique, g.rref, g.eval));
  A::R_t R1(1, A::Ri_t(1, R0));
  A::ami_vars e0({0.0, 0.5}, {0, 0}, 1.0);
  look("no-integrations", a.evaluate(p0, R1, P, S, e0));
  msg = "routes returning a non-finite value with a clear flag:" + bad;
  return !bad.empty();
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C14";
  p.rule = "random products in every evaluation route at points with exactly or nearly coinciding energies, vanishing bosonic arguments, extreme, infinite and "
           "not-a-number inputs, with several cutoffs, and at regular points; non-trivial: some route returns a non-finite value or one above the cutoff "
           "(singular), or all contributions are known to lie below it (regular); derivatives of the occupation functions near and far from their poles: the value is not far below the cutoff (occupation)";
  p.families = {{"singular", singular, 40000, 1500000}, {"regular", regular, 20000, 600000}, {"occupation", occupation, 60000, 2000000}};
  p.probes = {{"", "two equal energies in a one-loop product", regress}, {"", "product equal to one or imaginary", regress_whole}, {"integral-product", "product equal to two", integral_product}};
  return pbt::main(p, argc, argv);
}

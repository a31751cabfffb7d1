// C11: on-the-fly evaluation gives the sum also where energies coincide exactly.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;

static bool external_zero(const Diagram &d, const Point &p) {
  int ne = d.nfreq - d.nint, N = 1;
  for (int i = 0; i < ne; i++) N *= 3;
  for (int q = 0; q < N; q++) {
    cd z = 0;
    bool any = false;
    for (int i = 0, t = q; i < ne; i++, t /= 3) { int x = t % 3 - 1; if (x) any = true; z += (double)x * p.freq[d.nint + i]; }
    if (any && std::abs(z) < 1e-6) return true;
  }
  return false;
}
static std::string bits(const SPR &s) {
  std::string o;
  for (auto &x : s.R) for (auto &y : x) { o += "|"; for (auto &g : y) { o += fmt(g.eps_) + fmt(g.alpha_) + std::to_string(g.species_); } }
  for (auto &x : s.P) for (auto &y : x) { o += "|"; for (auto &g : y) { o += fmt(g.eps_) + fmt(g.alpha_) + std::to_string(g.der_) + "," + std::to_string(g.multiplicity_); } }
  for (auto &x : s.S) for (auto &y : x) { o += "|"; for (double g : y) o += fmt(g) + " "; }
  return o;
}
static void run(Ctx &c, GenOpt g, int nlev, bool cplx, bool sums = false) {
  bool zeros = c.s.chance(1, 5);
  Diagram d = gen_diagram(c.s, g);
  // repeated lines get labels of their own, so that they only coincide at the point
  for (size_t j = 0; j < d.lines.size(); j++)
    for (size_t i = 0; i < j; i++)
      if (d.lines[i].eps == d.lines[j].eps && c.s.chance(2, 3)) {
        for (auto &l : d.lines) l.eps.push_back(0);
        for (int &x : d.lines[j].eps) x = 0;
        d.lines[j].eps.back() = 1;
        d.neps++;
        break;
      }
  PointOpt po; po.betas = {1, 2, 0.5, 5}; po.pref = true; po.zero_energy = false;
  Point p = gen_point(c.s, d, po);
  // exactly representable levels: sums and differences coincide exactly
  static const double LV[] = {1, 0.5, 0.75, 1.5, 2, 0.25, 3, 1.25};
  int off = (int)c.s.draw(8);
  for (auto &e : p.energy) {
    double l = LV[(off + c.s.draw(nlev)) % 8];
    if (c.s.chance(1, 3)) l = -l;
    if (zeros && c.s.chance(1, 4)) l = 0;
    if (sums) l = (c.s.coin() ? 1 : -1) * (1 + (int)c.s.draw(6)) * 0.25;
    e = cplx ? cd(l, c.s.coin() ? 0.5 : -0.25) : cd(l);
  }
  c.note(dump(d) + " " + dump(p));
  if (external_zero(d, p)) c.discard("combination of external frequencies vanishes");
  RefOut r = ref_sum(ref_in(d, p));
  bool nd = r.numeric_degenerate;
  if (r.zero_boson) c.discard("zero-energy bosonic pole");
  if (!r.ok && !nd) c.discard(r.why);
  if (r.confluent > 6) c.discard("derivative order too high for the reference precision");
  if (!(r.min_den > 2e-3 && r.min_bose > 2e-3)) c.discard("ill-conditioned point");
  c.label(nd ? "degenerate" : "not degenerate");
  c.label("integrations " + std::to_string(d.nint));
  AmiBase a;
  // the default policy for zero-energy poles does not know bosonic frequencies
  if (d.ext_bose) a.drop_matsubara_poles = false;
  SPR s = make_spr(a, d);
  std::string before = bits(s);
  A::ami_vars ev = p.vars();
  cd want = r.value * p.pref;
  double tol = ref_tol(r) * std::abs(p.pref);
  c.nontrivial(nd && tol < 1e-6 * std::abs(want));
  expect_close(c, "on-the-fly evaluation", a.evaluate_otf(s.parms, s.R, s.P, s.S, ev), want, tol);
  c.check(bits(s) == before, "the stored solution was changed by the evaluation");
  if (!nd) expect_close(c, "plain evaluation", a.evaluate(s.parms, s.R, s.P, s.S, ev), want, tol);
  // the same solution serves the next, ordinary point
  if (c.s.chance(1, 4)) {
    Point q = gen_point(c.s, d, po);
    RefOut rq = ref_sum(ref_in(d, q));
    if (rq.ok && ref_good(rq)) {
      A::ami_vars eq = q.vars();
      expect_close(c, "on-the-fly evaluation at a generic point", a.evaluate_otf(s.parms, s.R, s.P, s.S, eq), rq.value * q.pref, ref_tol(rq) * std::abs(q.pref));
    }
  }
}
static void fermionic(Ctx &c) { GenOpt g; g.min_int = 1; g.max_int = 3; g.multi = 2; g.max_lines = 7; g.int_eps = false; run(c, g, 1 + (int)c.s.draw(4), false); }
// Energies that differ, while sums and differences of several coincide or vanish:
// the degeneracies appear at the later integrations only.
static void combinations(Ctx &c) { GenOpt g; g.min_int = 2; g.max_int = c.s.chance(1, 4) ? 4 : 3; g.max_lines = 8; g.flip_dup = true; g.int_eps = c.s.chance(1, 4); run(c, g, 8, false, true); }
static void networks(Ctx &c) { GenOpt g; g.species = c.s.chance(1, 3); g.min_int = 1; g.max_int = 3; g.multi = c.s.chance(1, 2) ? 2 : 0; g.max_lines = 7; g.flip_dup = true; run(c, g, 1 + (int)c.s.draw(3), c.s.chance(1, 4)); }
static void bosonic(Ctx &c) { GenOpt g; g.min_int = 1; g.max_int = 3; g.multi = 2; g.max_lines = 7; g.ext_bose = true; run(c, g, 1 + (int)c.s.draw(4), false); }

// Points at which poles arrive at zero energy on the contour: the documented
// default policy leaves such poles out, also when they arise only numerically.
static void dropped(Ctx &c) {
  GenOpt g; g.min_int = 2; g.max_int = 3; g.multi = (int)c.s.draw(3); g.max_lines = 7; g.flip_dup = true; g.int_eps = c.s.chance(1, 4);
  Diagram d = gen_diagram(c.s, g);
  PointOpt po; po.betas = {1, 2, 0.5, 5}; po.pref = true; po.zero_energy = false;
  Point p = gen_point(c.s, d, po);
  static const double LV[] = {1, 0.5, 0.75, 1.5, 2, 0.25, 3, 1.25};
  int off = (int)c.s.draw(8), nlev = 1 + (int)c.s.draw(2);
  bool neg = c.s.coin(), zeros = c.s.chance(1, 5);
  for (auto &e : p.energy) { double l = LV[(off + c.s.draw(nlev)) % 8]; e = zeros && c.s.chance(1, 4) ? 0 : neg && c.s.chance(1, 3) ? -l : l; }
  c.note(dump(d) + " " + dump(p));
  if (external_zero(d, p)) c.discard("combination of external frequencies vanishes");
  RefIn in = ref_in(d, p);
  in.drop_zero = true;
  RefOut r = ref_sum(in);
  if (!r.ok && !r.numeric_degenerate) c.discard(r.why);
  if (!r.dropped) c.discard("no pole left out");
  if (r.confluent > 6) c.discard("derivative order too high for the reference precision");
  if (!(r.min_den > 2e-3 && r.min_bose > 2e-3)) c.discard("ill-conditioned point");
  c.label("integrations " + std::to_string(d.nint));
  AmiBase a;
  SPR s = make_spr(a, d);
  std::string before = bits(s);
  A::ami_vars ev = p.vars();
  cd want = r.value * p.pref;
  double tol = ref_tol(r) * std::abs(p.pref) + 1e-300;
  c.nontrivial(tol < 1e-6 * std::abs(want));
  expect_close(c, "on-the-fly evaluation", a.evaluate_otf(s.parms, s.R, s.P, s.S, ev), want, tol);
  c.check(bits(s) == before, "the stored solution was changed by the evaluation");
}

// Energies that nearly coincide are different energies. All are exact in binary,
// so that their differences are exact as well and little precision is lost.
static void nearly(Ctx &c) {
  GenOpt g; g.min_int = 1; g.max_int = 3; g.multi = 2; g.max_lines = 7; g.flip_dup = true; g.int_eps = false;
  Diagram d = gen_diagram(c.s, g);
  for (size_t j = 0; j < d.lines.size(); j++)
    for (size_t i = 0; i < j; i++)
      if (d.lines[i].eps == d.lines[j].eps && c.s.chance(3, 4)) {
        for (auto &l : d.lines) l.eps.push_back(0);
        for (int &x : d.lines[j].eps) x = 0;
        d.lines[j].eps.back() = 1;
        d.neps++;
        break;
      }
  PointOpt po; po.betas = {1, 2, 0.5, 5}; po.ext_kind = 0; po.wide = false; po.junk = false;
  Point p = gen_point(c.s, d, po);
  static const double LV[] = {1, 0.5, 0.75, 1.5, 2, 0.25, 3, 1.25};
  int off = (int)c.s.draw(8), nlev = 1 + (int)c.s.draw(3);
  double del = std::pow(2.0, -c.s.range(9, 24));
  for (auto &e : p.energy) {
    e = LV[(off + c.s.draw(nlev)) % 8] + del * c.s.sym(2);
    if (c.s.chance(1, 5)) e += cd(0, del * c.s.sym(1));
    if (c.s.chance(1, 4)) e = -e;
  }
  c.note(dump(d) + " " + dump(p));
  if (external_zero(d, p)) c.discard("combination of external frequencies vanishes");
  RefIn in = ref_in(d, p);
  in.shift_size = 1e-20;
  RefOut r = ref_sum(in);
  if (r.zero_boson) c.discard("zero-energy bosonic pole");
  if (!r.ok && !r.numeric_degenerate) c.discard(r.why);
  if (r.confluent > 4) c.discard("derivative order too high for the reference precision");
  if (!(r.min_bose > 2e-3)) c.discard("ill-conditioned point");
  double tol = 2e-14 * r.scale + 1e-250; // all differences are exact
  c.label("difference 2^" + std::to_string((int)std::log2(del)));
  c.label(tol < 0.05 * del * std::abs(r.value) ? "resolves the difference" : "does not resolve the difference");
  AmiBase a;
  SPR s = make_spr(a, d);
  A::ami_vars ev = p.vars();
  c.nontrivial(r.min_den < 1e-2 && tol < 0.05 * del * std::abs(r.value));
  cd got = a.evaluate_otf(s.parms, s.R, s.P, s.S, ev);
  expect_close(c, "on-the-fly evaluation of nearly equal energies", got, r.value, tol);
}

// opposite orientations with the same energy were not recognised
static bool regress_opposite(std::string &msg) {
  AmiBase a;
  typedef A::g_struct G;
  A::g_prod_t R0{G({1, 0}, {1, 0}), G({0, 1}, {-1, 0})};
  A::ami_parms pr(1, 0);
  A::R_t R; A::P_t P; A::S_t S;
  a.construct(pr, R0, R, P, S);
  A::ami_vars ev({0.5, -0.5}, {0, cd(0, M_PI)}, 1.0);
  cd got = a.evaluate_otf(pr, R, P, S, ev);
  // -1/(z+1/2)^2
  cd want = -ref_fermi_bose(1, 1, 1.0, -0.5);
  msg = "two factors of opposite orientation and equal energy: got " + fmt(got) + ", expected " + fmt(want);
  return !(std::abs(got - want) < 1e-9);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C11";
  p.rule = "random graphs and networks with energies drawn from one to four exactly representable levels of either sign; non-trivial: a denominator "
           "of the symbolic solution vanishes at the point and the confluent value is resolved to better than 1e-6";
  p.families = {{"fermionic", fermionic, 20000, 2000000}, {"networks", networks, 20000, 2000000}, {"bosonic-external", bosonic, 12000, 1000000}, {"combinations", combinations, 12000, 1000000}, {"zero-energy-poles", dropped, 20000, 1000000}, {"nearly-equal", nearly, 20000, 1000000}};
  p.probes = {{"", "equal energies of opposite orientation", regress_opposite}};
  p.assumptions = {"the reference implementation in harness/ref.cpp (coinciding energies as a confluent limit)",
                   "poles at which a bosonic distribution argument vanishes are left out (documented default policy) and occur only in the family zero-energy-poles; no vanishing combination of external frequencies",
                   "with a bosonic external frequency the policy of dropping zero-energy poles is switched off"};
  return pbt::main(p, argc, argv);
}

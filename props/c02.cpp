// C02: repeated propagators (poles of any order) are summed exactly.
#include "common.hpp"
using namespace pbt;

static void all_forms(Ctx &c, const Diagram &d, const Point &p, cd want, double tol, bool fact) {
  AmiBase a;
  SPR s = make_spr(a, d);
  AmiBase::terms t = make_terms(a, d);
  AmiBase::ami_vars ev = p.vars();
  expect_close(c, "S/P/R evaluation", a.evaluate(s.parms, s.R, s.P, s.S, ev), want, tol);
  expect_close(c, "term evaluation", a.evaluate(s.parms, t, ev), want, tol);
  if (fact && s.R.back().size() <= 300) {
    Fact f;
    a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval);
    expect_close(c, "factorised evaluation", a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval), want, tol);
  }
}
static void repeated(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true;
  PointOpt po; po.complex_energy = true;
  Case k = gen_case(c, g, po);
  c.nontrivial(sharp(k) && k.r.confluent >= 1);
  all_forms(c, k.d, k.p, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref), c.s.chance(1, 3));
}
static void bose_repeated(Ctx &c) {
  GenOpt g; g.min_int = 1; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.ext_bose = true; g.flip_dup = true;
  PointOpt po;
  Case k = gen_case(c, g, po);
  c.nontrivial(sharp(k) && k.r.confluent >= 1);
  all_forms(c, k.d, k.p, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref), false);
}
static void shared(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true; g.merge = true; g.ext_bose = c.s.chance(1, 4);
  PointOpt po; po.complex_energy = true;
  Case k = gen_case(c, g, po);
  c.nontrivial(sharp(k) && k.r.confluent >= 1);
  all_forms(c, k.d, k.p, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref), c.s.chance(1, 3));
}
// A pole of high order next to other factors.
static void stacked(Ctx &c) {
  GenOpt g; g.flip_dup = true; g.ext_bose = c.s.chance(1, 5);
  PointOpt po; po.complex_energy = true;
  Case k = case_of(c, gen_stack(c.s, g), po);
  c.nontrivial(sharp(k) && k.r.confluent >= 3);
  all_forms(c, k.d, k.p, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref), c.s.chance(1, 3));
}
// One loop, any number of equal propagators.
static void high_order(Ctx &c) {
  Case k = gen_high_order(c);
  c.nontrivial(k.tol < 1e-3 * std::abs(k.r.value));
  all_forms(c, k.d, k.p, k.r.value, k.tol, true);
}

// 15 equal factors: an integer factorial overflowed.
static bool regress_factorial(std::string &msg) {
  AmiBase a;
  AmiBase::g_prod_t R0(15, AmiBase::g_struct({1}, {1, 0}));
  AmiBase::ami_parms pr(1, 0);
  AmiBase::terms t;
  a.construct(pr, R0, t);
  AmiBase::ami_vars ev({0.7}, {0, cd(0, M_PI)}, 1.0);
  double fac = 1;
  for (int i = 2; i < 15; i++) fac *= i;
  cd want = ref_fermi_bose(14, 1, 1.0, -0.7) / fac, got = a.evaluate(pr, t, ev);
  msg = "15 equal propagators: got " + fmt(got) + ", expected " + fmt(want);
  return !(std::abs(got - want) < 1e-6 * std::abs(want));
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C02";
  p.rule = "random graphs and networks with lines repeated (also with opposite orientation) up to pole order 7, and one-loop products of "
           "2..16 equal propagators; non-trivial: a pole of order >= 2 contributes and the reference resolves the value";
  p.families = {{"repeated", repeated, 60000, 1500000}, {"bosonic-external", bose_repeated, 12000, 300000}, {"shared-energies", shared, 10000, 400000}, {"stacked", stacked, 2500, 80000}, {"high-order", high_order, 15000, 300000}};
  p.probes = {{"", "multiplicity 15", regress_factorial}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp (repeated poles as confluent limits of simple poles)",
                   "points within 2e-3 of a vanishing denominator or bosonic argument are discarded"};
  return pbt::main(p, argc, argv);
}

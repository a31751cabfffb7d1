// C01: the S/P/R solution evaluates to the exact Matsubara sum.
#include "common.hpp"
using namespace pbt;

static void run(Ctx &c, const GenOpt &g, const PointOpt &po) {
  Case k = gen_case(c, g, po);
  AmiBase a;
  SPR s = make_spr(a, k.d);
  AmiBase::ami_vars ev = k.p.vars();
  c.nontrivial(sharp(k) && k.r.paths >= 2);
  cd x = a.evaluate(s.parms, s.R, s.P, s.S, ev);
  expect_close(c, "S/P/R evaluation", x, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref));
}
static void small(Ctx &c) { GenOpt g; g.max_int = 3; g.multi = 0; PointOpt p; run(c, g, p); }
static void diagrams(Ctx &c) { GenOpt g; g.min_int = 2; g.max_int = 4; g.multi = 0; g.general = false; PointOpt p; run(c, g, p); }
static void complex_e(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = 0; PointOpt p; p.complex_energy = true; run(c, g, p);
}
static void cold(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = 0; PointOpt p; p.betas = {100, 300, 50, 1000}; p.emax = 6; run(c, g, p);
}
static void wide(Ctx &c) { GenOpt g; g.max_int = 2; g.multi = 0; g.max_lines = 16; g.chain = 14; PointOpt p; run(c, g, p); }
static void shared(Ctx &c) { GenOpt g; g.max_int = 4; g.multi = 0; g.merge = true; g.ext_bose = c.s.chance(1, 4); PointOpt p; p.complex_energy = true; run(c, g, p); }
static void deep(Ctx &c) {
  GenOpt g; g.min_int = 5; g.max_int = c.thorough ? 6 : 5; g.multi = 0; g.max_lines = 11; PointOpt p; run(c, g, p);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C01";
  p.rule = "random vertex graphs (self-energies) and random conserved-flow networks with 1..6 loop frequencies, random labels, "
           "orders and orientations, evaluated at random energies, temperatures and external frequencies; non-trivial: at least "
           "two residue contributions and a reference value resolved to better than 1e-6";
  p.families = {{"small", small, 60000, 3000000}, {"diagrams", diagrams, 20000, 1000000}, {"complex-energy", complex_e, 20000, 600000},
                {"low-temperature", cold, 20000, 600000}, {"many-lines", wide, 6000, 200000}, {"shared-energies", shared, 12000, 500000}, {"deep", deep, 600, 30000}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp", "frequency coefficients in {-1,0,1} at every step, as documented; "
                   "no vanishing bosonic distribution argument and no accidental zero denominator (points within 2e-3 of one are discarded)"};
  return pbt::main(p, argc, argv);
}

// C03: the term-by-term form evaluates to the exact Matsubara sum and matches the S/P/R form.
#include "common.hpp"
using namespace pbt;

static void judge(Ctx &c, const Case &k);
static void run(Ctx &c, const GenOpt &g, const PointOpt &po, bool stack = false) {
  judge(c, case_of(c, stack ? gen_stack(c.s, g) : gen_shape(c.s, g), po));
}
static void judge(Ctx &c, const Case &k) {
  AmiBase a;
  AmiBase::ami_parms pr = parms_of(k.d);
  AmiBase::g_prod_t R0 = k.d.gprod();
  AmiBase::terms t, t2;
  a.construct(pr, R0, t);
  a.construct(k.d.nint, R0, t2);
  SPR s = make_spr(a, k.d);
  AmiBase::ami_vars ev = k.p.vars();
  cd want = k.p.pref * k.r.value;
  double tol = k.tol * std::abs(k.p.pref);
  c.nontrivial(sharp(k) && t.size() >= 2);
  expect_close(c, "term evaluation", a.evaluate(pr, t, ev), want, tol);
  expect_close(c, "term evaluation (integer overload of construct)", a.evaluate(pr, t2, ev), want, tol);
  c.check(t.size() == s.R.back().size(), "the term form has " + std::to_string(t.size()) + " terms, the S/P/R form " + std::to_string(s.R.back().size()));
  c.check(t2.size() == t.size(), "the two overloads of construct give different numbers of terms");
  // every term stands on its own
  cd sum = 0;
  std::vector<int> order = c.s.perm((int)std::min<size_t>(t.size(), 400));
  if (t.size() <= 400) {
    for (int i : order) sum += a.evaluate_term(pr, t[i], ev);
    expect_close(c, "sum of the individually evaluated terms", sum, want, tol);
    // a list of terms may be split and evaluated in parts
    size_t cut = t.empty() ? 0 : c.s.draw(t.size() + 1);
    AmiBase::terms lo(t.begin(), t.begin() + cut), hi(t.begin() + cut, t.end());
    expect_close(c, "sum over two parts of the term list", a.evaluate(pr, lo, ev) + a.evaluate(pr, hi, ev), want, tol);
  }
}
static void simple(Ctx &c) { GenOpt g; g.max_int = 3; g.multi = 0; PointOpt p; p.pref = true; run(c, g, p); }
static void repeated(Ctx &c) { GenOpt g; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true; PointOpt p; run(c, g, p); }
static void bosonic(Ctx &c) { GenOpt g; g.max_int = 3; g.ext_bose = true; PointOpt p; p.complex_energy = true; run(c, g, p); }
static void deep(Ctx &c) { GenOpt g; g.min_int = 4; g.max_int = 5; g.multi = 0; g.max_lines = 11; PointOpt p; run(c, g, p); }

static void wide(Ctx &c) { GenOpt g; g.max_int = 2; g.multi = 1; g.max_mult = 2; g.max_lines = 14; g.chain = 12; PointOpt p; run(c, g, p); }
static void shared(Ctx &c) { GenOpt g; g.max_int = 4; g.multi = c.s.coin() ? 2 : 0; g.max_lines = 8; g.flip_dup = true; g.merge = true; g.ext_bose = c.s.chance(1, 4); PointOpt p; p.complex_energy = true; run(c, g, p); }
static void high_order(Ctx &c) { Case k = gen_high_order(c); c.nontrivial(k.tol < 1e-3 * std::abs(k.r.value)); judge(c, k); }
static void stacked(Ctx &c) { GenOpt g; g.flip_dup = true; PointOpt p; run(c, g, p, true); }

int main(int argc, char **argv) {
  Property p;
  p.id = "C03";
  p.rule = "random graphs and networks with 1..5 loop frequencies, with and without repeated lines and bosonic externals, and one-loop products of up to 16 equal propagators; non-trivial: "
           "two or more terms (or a high order) and a reference value resolved to better than 1e-6";
  p.families = {{"simple", simple, 40000, 1500000}, {"repeated", repeated, 25000, 800000}, {"bosonic-external", bosonic, 15000, 500000}, {"deep", deep, 1500, 40000}, {"many-lines", wide, 4000, 120000}, {"shared-energies", shared, 12000, 500000}, {"stacked", stacked, 1500, 50000}, {"high-order", high_order, 6000, 100000}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp"};
  return pbt::main(p, argc, argv);
}
